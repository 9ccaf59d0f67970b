/* C14: sorting. Elements are (key,tag); the order compares keys only, so equal keys with different tags show stability.
   N elements of SZ bytes between guard bytes. */
#ifndef N
#define N 5
#define NN (int)in_range(0,40)
#define SZ (int)in_range(2,5)
#define MAXN 40
#else
#define NN N
#define MAXN N
#endif
static int the_arg,cmp_bad; static const unsigned char *r_lo,*r_hi;
static int by_key(const void *a,const void *b,void *arg)
{
    if (arg != &the_arg) cmp_bad = 1;
    return (int)*(const unsigned char*)a - (int)*(const unsigned char*)b;
}
#ifdef VH_CBMC
#define GUARD 2
#else
#define GUARD 8
#endif
H(sort)
{
    static unsigned char m[GUARD + (MAXN + 1)*5 + GUARD]; unsigned char key0[MAXN + 1],g[GUARD*2];
    int n = NN,sz = SZ; cmp_bad = 0;
    int few = in_bool();
    unsigned char *a = m + GUARD;
    for (int i = 0;i < GUARD;i++) { g[i] = m[i] = in_u8(); g[GUARD+i] = a[n*sz + i] = in_u8(); }
    for (int i = 0;i < n;i++)
    {
        a[i*sz] = key0[i] = in_u8(); if (few) { a[i*sz] &= 3; key0[i] &= 3; }
        a[i*sz + 1] = (unsigned char)i;
        for (int j = 2;j < sz;j++) a[i*sz + j] = (unsigned char)(key0[i]*7 + i*3 + j);
    }
    mergesort_r2(a,n,sz,by_key,&the_arg);
    CHECK("order_called_with_its_argument",!cmp_bad);
    int whole = 1; unsigned char seen[MAXN + 1]; for (int i = 0;i < n;i++) seen[i] = 0;
    for (int i = 0;i < n;i++)
    {
        int t = a[i*sz + 1];
        if (t >= n) { whole = 0; continue; }
        if (seen[t] || a[i*sz] != key0[t]) whole = 0;
        seen[t] = 1;
        for (int j = 2;j < sz;j++) if (a[i*sz + j] != (unsigned char)(key0[t]*7 + t*3 + j)) whole = 0;
    }
    CHECK("same_elements_as_before",whole);
    for (int i = 0;i + 1 < n;i++)
    {
        CHECK("in_order",a[i*sz] <= a[(i+1)*sz]);
        CHECK("equal_ones_keep_their_order",a[i*sz] != a[(i+1)*sz] || a[i*sz + 1] < a[(i+1)*sz + 1]);
    }
    int out = 1; for (int i = 0;i < GUARD;i++) if (m[i] != g[i] || a[n*sz + i] != g[GUARD+i]) out = 0;
    CHECK("nothing_outside_is_touched",out);
    REACH();
}
