/* C05: algebra of value types: join, size, alignment, comparison */
#include <limits.h>
#ifndef INT_MIN
#define INT_MIN (-2147483647-1)
#endif
static int in_type(void) { return (int)in_range(0,XBT_LAST); }
static int is_empty(int t) { return t == XBT_NULL || t == XBT_LAST || t == XBT_UNKNOWN; }
static int is_text(int t) { return t == XBT_STRING || t == XBT_BLOB_STRING; }
/* modulo the three kinds of nothing */
static int same(int a,int b) { return a == b || (is_empty(a) && is_empty(b)); }
H(join_laws)
{
    int a = in_type(),b = in_type(),c = in_type();
    int ab = XBT_JoinTypes(a,b);
    CHECK("join_gives_a_type",ab >= 0 && ab <= XBT_LAST);
    CHECK("join_commutative",same(ab,XBT_JoinTypes(b,a)));
    CHECK("join_associative",same(XBT_JoinTypes(ab,c),XBT_JoinTypes(a,XBT_JoinTypes(b,c))));
    CHECK("join_idempotent",XBT_JoinTypes(a,a) == a);
    CHECK("join_empty_is_neutral",!is_empty(b) || same(ab,a));
    CHECK("join_text_absorbs",!(is_text(a) || is_text(b)) || is_text(ab));
    CHECK("join_text_only_from_text",!is_text(ab) || is_text(a) || is_text(b));
    CHECK("join_bigger_text_kept",!(a == XBT_BLOB_STRING || b == XBT_BLOB_STRING) || ab == XBT_BLOB_STRING);
    CHECK("join_absorbed_again",same(XBT_JoinTypes(ab,a),ab) && same(XBT_JoinTypes(ab,b),ab));
    REACH();
}
/* digits after the point a type can hold; -1: not a decimal number type */
static int frac(int t) { return t == XBT_INT32 ? 0 : t == XBT_INT32_DECI ? 1 : t == XBT_INT32_CENTI ? 2 : t == XBT_INT32_MILI ? 3 : t == XBT_INT32_MICRO ? 6 : t == XBT_INT32_NANO ? 9 : -1; }
H(join_numbers)
{
    int a = in_type(),b = in_type();
    int ab = XBT_JoinTypes(a,b);
    if (frac(a) >= 0 && frac(b) >= 0) CHECK("join_keeps_every_fraction_digit",frac(ab) == (frac(a) > frac(b) ? frac(a) : frac(b)));
    int na = a == XBT_INT32 || a == XBT_INT64 || a == XBT_FLOAT || a == XBT_DOUBLE,nb = b == XBT_INT32 || b == XBT_INT64 || b == XBT_FLOAT || b == XBT_DOUBLE;
    if (na && nb)
    {
        int wide = a == XBT_INT64 || a == XBT_DOUBLE || b == XBT_INT64 || b == XBT_DOUBLE,flt = a == XBT_FLOAT || a == XBT_DOUBLE || b == XBT_FLOAT || b == XBT_DOUBLE;
        CHECK("join_number_keeps_width_and_kind",ab == (flt ? (wide ? XBT_DOUBLE : XBT_FLOAT) : (wide ? XBT_INT64 : XBT_INT32)));
    }
    if (!is_empty(a) && !is_empty(b) && !is_text(a) && !is_text(b) && a != b && !(na && nb) && !(frac(a) >= 0 && frac(b) >= 0)) CHECK("join_incompatible_is_variant",ab == XBT_VARIANT);
    REACH();
}
/* joining the type detected in a text with what was seen before; detection by any contract */
#ifdef VH_REPL_XBT_Detect
static XML_Binary_Type d_type;
XML_Binary_Type XBT_Detect(const char *value,_Bool verbose) { return d_type; }
H(detect2)
{
    int e = in_type(); d_type = in_type();
    CHECK("detect_joins_with_expected",XBT_Detect2("?",e) == (e == XBT_VARIANT ? XBT_VARIANT : XBT_JoinTypes(d_type,e)));
    REACH();
}
#endif
/* ---- sizes */
static int sp_size(int t)
{
    switch (t)
    {
        case XBT_INT32: case XBT_UINT32: case XBT_FLOAT: case XBT_UNIX_TIME: case XBT_UNIX_DATE: case XBT_IPv4:
        case XBT_INT32_DECI: case XBT_INT32_CENTI: case XBT_INT32_MILI: case XBT_INT32_MICRO: case XBT_INT32_NANO: return 4;
        case XBT_INT64: case XBT_UINT64: case XBT_DOUBLE: case XBT_UNIX_TIME64_MSEC: return 8;
        case XBT_GUID: case XBT_IPv6: return 16;
        case XBT_SHA1: return 20;
    }
    return -1;
}
static int is_var(int t) { return t == XBT_BLOB || t == XBT_HEX || t == XBT_BLOB_STRING; }
H(fixed_sizes)
{
    int t = in_type(); int s = sp_size(t); ASSUME(s >= 0);
    int given = in_bool() ? s : 0;
    CHECK("stored_size_of_fixed_type",XBT_Size2(t,given) == (s + 3) / 4 * 4 + (t == XBT_SHA1 ? 4 : 0));
    CHECK("text_size_of_fixed_type",XBT_SizeFromString("0",t) == s);
    CHECK("alignment_of_fixed_type",XBT_Align(t) == (s == 8 || t == XBT_IPv6 ? 8 : 4));
    REACH();
}
#ifdef VH_CBMC
#define LONGEST (1 << 29)
#else
#define LONGEST 400000
#endif
H(var_sizes)
{
    int n = (int)in_range(0,LONGEST);
    CHECK("stored_size_of_text",XBT_Size2(XBT_STRING,n) == n + 1);
    CHECK("stored_size_of_blob",XBT_Size2(XBT_BLOB,n) == n + 4 && XBT_Size2(XBT_HEX,n) == n + 4);
    CHECK("blob_alignment",XBT_Align(XBT_BLOB) == 4 && XBT_Align(XBT_HEX) == 4 && XBT_Align(XBT_BLOB_STRING) == 4 && XBT_Align(XBT_STRING) == 0);
    int b = XBT_GetBLOB_STRING_Size(n);
    CHECK("blob_text_fits",b >= n + 1 && b >= 16);
    CHECK("blob_text_size_with_length",XBT_Size2(XBT_BLOB_STRING,n) == b + 4);
    /* 16,24,32,48,64,96,...: a power of two or three quarters of one, and no smaller such size fits */
    int ok = 0; unsigned p = 16,below = 0;
    for (int i = 0;i < 28;i++)
    {
        if ((unsigned)b == p) ok = 1;
        if ((unsigned)b == p + (p >> 1)) ok = 1;
        if (p < (unsigned)b && p > below) below = p;
        if (p + (p >> 1) < (unsigned)b && p + (p >> 1) > below) below = p + (p >> 1);
        p <<= 1;
    }
    CHECK("blob_text_size_is_a_step",ok);
    CHECK("blob_text_size_is_minimal",(int)below < n + 1);
    if (n < LONGEST) CHECK("blob_text_size_monotonic",XBT_GetBLOB_STRING_Size(n + 1) >= b);
    REACH();
}
H(text_sizes)
{
    char s[12]; int n = (int)in_range(0,10);
    for (int i = 0;i < 10;i++) { s[i] = (char)in_u8(); ASSUME(s[i] != 0); }
    s[n] = 0;
    CHECK("text_size_of_text",XBT_SizeFromString(s,XBT_STRING) == n);
    CHECK("text_size_of_hex",XBT_SizeFromString(s,XBT_HEX) == (n + 1) / 2);
    CHECK("text_size_of_blob_text",XBT_SizeFromString(s,XBT_BLOB_STRING) == XBT_GetBLOB_STRING_Size(n));
    CHECK("text_size_of_nothing",XBT_SizeFromString(s,XBT_NULL) == 0);
    REACH();
}
/* ---- the value of an element or attribute as seen by a reader and by a writer */
static _Alignas(16) unsigned char item[256];
static void fill(int from,int n) { for (int i = 0;i < n;i++) item[from + i] = VH_NATIVE ? in_u8() : in_u8(); }
static int up(int x,int a) { return (x + a - 1) / a * a; }
static int sp_len(int t,const unsigned char *d) { return t == XBT_STRING ? 1 + (int)strlen((const char*)d) : is_var(t) ? 4 + *(const int*)d : t == XBT_NULL ? 0 : sp_size(t); }
H(item_data)
{
    int t = in_type(); ASSUME(sp_size(t) > 0 || is_var(t) || t == XBT_STRING || t == XBT_NULL);
    struct XML_Item *I = (struct XML_Item*)item;
    int np = (int)in_range(0,3),nc = (int)in_range(0,3);
    I->paramcount = (short)np; I->childcount = nc;
    int at = (int)sizeof(struct XML_Item) + np*(int)sizeof(struct XML_Param_Description) + nc*4;
    item[at] = (unsigned char)t;
    int pos = t == XBT_STRING ? at + 1 : up(at + 1,sp_size(t) == 8 ? 8 : 4);
    fill(at + 1,24);
    if (is_var(t)) *(int*)(item + pos) = (int)in_range(0,1000000);
    if (t == XBT_STRING) item[at + 12] = 0;
    struct XML_Binary_Data_Ref D = XML_Item__getData(I);
    CHECK("item_type",D.type == t);
    CHECK("item_value_place",D.data == (char*)item + pos);
    CHECK("item_value_size",D.size == sp_len(t,item + pos));
    REACH();
}
H(param_data)
{
    int t = in_type(); ASSUME(sp_size(t) > 0 || is_var(t) || t == XBT_STRING || t == XBT_NULL);
    struct XML_Param_Description *d = (struct XML_Param_Description*)(item + 16);
    d->type = (unsigned char)t;
    int off = 64;
    if (sp_size(t) == 4) d->data = (int)in_u32(); else d->data = off;
    fill(off,24); item[off + 20] = 0;
    if (is_var(t)) *(int*)(item + off) = (int)in_range(0,1000000);
    struct XML_Binary_Data_Ref D = XML_Param_Description__getData(d,(struct XML_Item*)item);
    unsigned char *want = sp_size(t) == 4 ? (unsigned char*)&d->data : item + off;
    CHECK("param_type",D.type == t);
    CHECK("param_value_place",D.data == (char*)want);
    CHECK("param_value_size",D.size == sp_len(t,want));
    REACH();
}
H(element_data)
{
    int t = in_type(); ASSUME(sp_size(t) > 0 || is_var(t) || t == XBT_STRING || t == XBT_NULL);
    struct BW_element *e = (struct BW_element*)item; unsigned char *v = item + sizeof(struct BW_element);
    e->value_type = (unsigned char)t;
    fill((int)sizeof(struct BW_element),24); v[20] = 0;
    if (is_var(t)) *(int*)v = (int)in_range(0,1000000);
    struct XML_Binary_Data_Ref D = BW_element__getData(e);
    CHECK("element_type",D.type == t);
    CHECK("element_value_place",D.data == (char*)v && D.content == (char*)v + (is_var(t) ? 4 : 0));
    CHECK("element_value_size",D.size == sp_len(t,v) && D.content_size == D.size - (is_var(t) ? 4 : 0));
    REACH();
}
H(element_retype)
{
    int t = in_type(),u = in_type();
    struct BW_element *e = (struct BW_element*)item; e->value_type = (unsigned char)t;
    struct BW_element *r = BW_element__retype(e,u);
    int same_shape = t == u || (sp_size(t) == 4 && sp_size(u) == 4) || (sp_size(t) == 8 && sp_size(u) == 8) || (is_var(t) && is_var(u));
    CHECK("retype_only_between_types_of_one_shape",r == (same_shape ? e : 0));
    CHECK("retype_sets_the_type",e->value_type == (same_shape ? u : t));
    REACH();
}
/* ---- comparison */
static int sgn(int x) { return x == INT_MIN ? 9 : x < 0 ? -1 : x > 0; }
static int kind(int t) { return t == XBT_FLOAT ? 'f' : t == XBT_DOUBLE ? 'd' : t == XBT_UINT32 || t == XBT_UNIX_TIME ? 'U' : t == XBT_INT64 || t == XBT_UNIX_TIME64_MSEC ? 'L' : t == XBT_UINT64 ? 'M' : sp_size(t) == 4 && t != XBT_IPv4 ? 'I' : 'b'; }
static int sp_cmp(int t,const unsigned char *a,const unsigned char *b)
{
    switch (kind(t))
    {
        case 'I': { int x = *(int*)a,y = *(int*)b; return (x > y) - (x < y); }
        case 'U': { unsigned x = *(unsigned*)a,y = *(unsigned*)b; return (x > y) - (x < y); }
        case 'L': { int64_t x = *(int64_t*)a,y = *(int64_t*)b; return (x > y) - (x < y); }
        case 'M': { uint64_t x = *(uint64_t*)a,y = *(uint64_t*)b; return (x > y) - (x < y); }
        case 'f': { float x = *(float*)a,y = *(float*)b; return (x > y) - (x < y); }
        case 'd': { double x = *(double*)a,y = *(double*)b; return (x > y) - (x < y); }
    }
    for (int i = 0;i < 20;i++) { if (i >= sp_size(t)) break; if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; }
    return 0;
}
H(compare_fixed)
{
    _Alignas(8) unsigned char a[24],b[24];
#ifdef CT
#define t CT
#else
    int t = in_type();
#endif
    int s = sp_size(t); ASSUME(s > 0);
    int same_up_to = VH_NATIVE ? (int)in_range(-20,20) : 0;
    IN_BYTES(a,20); IN_BYTES(b,20);
    for (int i = 0;i < same_up_to;i++) b[i] = a[i];
    int r = XBT_Compare(t,a,s,t,b,s);
    CHECK("compare_is_the_order_of_the_values",sgn(r) == sp_cmp(t,a,b));
    struct XML_Binary_Data_Ref A,B; memset(&A,0,sizeof A); memset(&B,0,sizeof B);
    A.type = B.type = t; A.size = B.size = s; A.data = (char*)a; B.data = (char*)b;
    int eq = 1; for (int i = 0;i < 20;i++) { if (i >= s) break; eq = eq && a[i] == b[i]; }
    CHECK("equal_means_the_same_bytes",XBT_Equal(A,B) == eq);
    if (kind(t) != 'f' && kind(t) != 'd') CHECK("compare_agrees_with_equal",(r == 0) == XBT_Equal(A,B));
    B.size = s + 1;
    CHECK("different_sizes_are_not_equal",!XBT_Equal(A,B));
    CHECK("different_sizes_do_not_compare",XBT_Compare(t,a,s,t,b,s + 1) == INT_MIN);
    REACH();
}
#undef t
H(compare_text)
{
    char a[5],b[5];
    IN_BYTES(a,4); IN_BYTES(b,4); a[4] = b[4] = 0;
    int t = in_bool() ? XBT_STRING : XBT_BLOB_STRING;
    int r = XBT_Compare(t,a,(int)strlen(a) + 1,t,b,(int)strlen(b) + 1),w = 0;
    for (int i = 0;i < 5;i++) if (w == 0) { if ((unsigned char)a[i] != (unsigned char)b[i]) w = (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; else if (a[i] == 0) break; }
    CHECK("compare_text_is_lexicographic",sgn(r) == w);
    REACH();
}
/* comparing a text with a value converts the text; conversion by any contract */
#ifdef VH_REPL_XBT_FromString
static unsigned char c_val[8]; static _Bool c_ok; static int c_n,c_calls; static const char *c_src; static int c_type;
_Bool XBT_FromString(const char *src,int type,char **wp,char *limit)
{
    c_calls++; c_src = src; c_type = type;
    CHECK("text_compare_room",limit - *wp >= 64);
    if (c_ok) { for (int i = 0;i < 8;i++) (*wp)[i] = (char)c_val[i]; *wp += c_n; }
    return c_ok;
}
H(equal_text)
{
    char s[8] = "123"; unsigned char v[8];
    IN_BYTES(v,8); IN_BYTES(c_val,8); c_ok = in_bool(); c_n = in_bool() ? 4 : 8; c_calls = 0;
    int t = c_n == 4 ? XBT_INT32 : XBT_INT64;
    struct XML_Binary_Data_Ref A,B; memset(&A,0,sizeof A); memset(&B,0,sizeof B);
    A.type = XBT_STRING; A.data = s; A.size = 4; B.type = t; B.data = (char*)v; B.size = c_n;
    int eq = c_ok; for (int i = 0;i < 8;i++) if (i < c_n) eq = eq && v[i] == c_val[i];
    _Bool r = in_bool() ? XBT_Equal(A,B) : XBT_Equal(B,A);
    CHECK("text_equals_value_iff_it_converts_to_it",r == eq);
    CHECK("text_is_what_is_converted",c_calls == 1 && c_src == s && c_type == t);
    REACH();
}
#endif
