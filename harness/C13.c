/* C13: the JSON tokenizer.
   Reference: a text is read left to right; ref_string / ref_primitive say where the string or primitive starting at a position
   ends, ref_parse keeps a stack of the open containers.  Sizes are compile time constants, contents are arbitrary. */
#define JSMN_ERROR_NOMEM -1
#define JSMN_ERROR_INVAL -2
#define JSMN_ERROR_PART -3
#define T_OBJECT 1
#define T_ARRAY 2
#define T_STRING 3
#define T_PRIMITIVE 4
#ifndef N
#define N 10
#endif
#ifndef K
#define K N
#endif
#define GAP 1
static char *js; static int len;
static struct jsmntok_t tok[K + 2*GAP],tok2[K + 2*GAP],keep[K + 2*GAP]; static struct jsmntok_t *T;
static struct jsmn_parser P0,P;
#ifdef VH_CBMC
#define LEN_ ((int)in_range(N,N))
#else
#define LEN_ ((int)in_range(0,N))
#endif
static int hexd(char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
static int delim(char c) { return c == ':' || c == '\t' || c == '\r' || c == '\n' || c == ' ' || c == ',' || c == ']' || c == '}'; }
static int at(int i) { return i < len ? (unsigned char)js[i] : 0; }
/* position of the closing quote of the string which starts at p, or an error */
static int ref_string(int p)
{
    int i = p + 1,hex = 0,esc = 0;
    for (int s = 0;s < N;s++)
    {
        int c = at(i);
        if (c == 0) return esc == 1 && i < len ? JSMN_ERROR_INVAL : JSMN_ERROR_PART;
        if (hex) { if (!hexd((char)c)) return JSMN_ERROR_INVAL; hex--; }
        else if (esc)
        {
            if (c == 'u') hex = 4;
            else if (c != '"' && c != '/' && c != '\\' && c != 'b' && c != 'f' && c != 'r' && c != 'n' && c != 't') return JSMN_ERROR_INVAL;
            esc = 0;
        }
        else if (c == '"') return i;
        else if (c == '\\') esc = 1;
        i++;
    }
    return JSMN_ERROR_PART;
}
/* position behind the primitive which starts at p, or an error */
static int ref_primitive(int p)
{
    for (int s = 0;s < N;s++)
    {
        char c = (char)at(p);
        if (c == 0 || delim(c)) return p;
        if (c < 32 || c >= 127) return JSMN_ERROR_INVAL;
        p++;
    }
    return p;
}
static struct { int type,start,end; } R[N + 1]; static int rn;
static int E_[N];
static void table(void) { for (int i = 0;i < N;i++) if (i < len) E_[i] = js[i] == '"' ? ref_string(i) : ref_primitive(i); }
/* result of the parser; lex: only the lexical level (no token array) */
static int ref_parse(int budget,int lex)
{
    int open[N + 1],depth = 0,p = 0; rn = 0;
    for (int s = 0;s < N;s++)
    {
        int c = at(p),e;
        if (c == 0) break;
        switch (c)
        {
            case '{': case '[':
                if (!lex && rn >= budget) return JSMN_ERROR_NOMEM;
                R[rn].type = c == '{' ? T_OBJECT : T_ARRAY; R[rn].start = p; R[rn].end = -1; open[depth++] = rn++;
                break;
            case '}': case ']':
                if (lex) break;
                if (depth == 0 || R[open[depth - 1]].type != (c == '}' ? T_OBJECT : T_ARRAY)) return JSMN_ERROR_INVAL;
                R[open[--depth]].end = p + 1;
                break;
            case '"':
                e = E_[p];
                if (e < 0) return e;
                if (!lex && rn >= budget) return JSMN_ERROR_NOMEM;
                R[rn].type = T_STRING; R[rn].start = p + 1; R[rn].end = e; rn++;
                p = e;
                break;
            case '\t': case '\r': case '\n': case ' ': case ':': case ',':
                break;
            default:
                e = E_[p];
                if (e < 0) return e;
                if (!lex && rn >= budget) return JSMN_ERROR_NOMEM;
                R[rn].type = T_PRIMITIVE; R[rn].start = p; R[rn].end = e; rn++;
                p = e - 1;
        }
        p++;
    }
    return !lex && depth ? JSMN_ERROR_PART : rn;
}
static void any_text(int n)
{
    js = (char*)malloc(n ? n : 1); len = n;     /* nothing behind the text may be read */
    for (int i = 0;i < N;i++) if (i < n)
        js[i] = (char)in_u8();
    T = tok + GAP;
    struct jsmntok_t g; g.type = (unsigned)in_range(0,4); g.start = (int)in_range(-1,2); g.end = (int)in_range(-1,2); g.parent = (int)in_range(-1,3); g.size = (int)in_range(0,2); g.total_size = 7;
    for (int i = 0;i < K + 2*GAP;i++) tok[i] = tok2[i] = keep[i] = g;
}
/* texts made of JSON characters: the native search reaches nested texts */
static void syntax_text(void)
{
    any_text(LEN_);
    for (int i = 0;i < N;i++) if (i < len) js[i] = IN_CHARSET("{}[]{}[]\":,\\ua1 1");
}
static int same_tok(const struct jsmntok_t *a,const struct jsmntok_t *b) { return a->type == b->type && a->start == b->start && a->end == b->end && a->size == b->size && a->parent == b->parent && a->total_size == b->total_size; }

H(string)
{
    any_text(LEN_);
    int p = (int)in_range(0,N); ASSUME(p < len && js[p] == '"');
    int budget = (int)in_range(0,K),next = (int)in_range(0,K),null = in_bool(); ASSUME(next <= budget);
    P.pos = p; P.toknext = next; P.toksuper = (int)in_range(-1,K); P0 = P;
    int r = jsmn_parse_string(&P,js,len,null ? 0 : T,budget),e = ref_string(p);
    if (e < 0) CHECK("string_rejected",r == e && P.pos == p && P.toknext == next);
    else if (!null && next >= budget) CHECK("string_without_room",r == JSMN_ERROR_NOMEM && P.pos == p && P.toknext == next);
    else
    {
        CHECK("string_accepted",r == 0 && P.pos == e && P.toknext == next + !null);
        if (!null) CHECK("string_token",T[next].type == T_STRING && T[next].start == p + 1 && T[next].end == e && T[next].size == 0 && T[next].parent == P0.toksuper);
    }
    CHECK("string_keeps_super",P.toksuper == P0.toksuper);
    int k = (int)in_range(-GAP,K + GAP - 1);
    CHECK("string_writes_one_token",(r == 0 && !null && k == next) || same_tok(T + k,keep + GAP + k));
    REACH();
}
H(primitive)
{
    any_text(LEN_);
    int p = (int)in_range(0,N); ASSUME(p < len && js[p] != 0 && !delim(js[p]));
    int budget = (int)in_range(0,K),next = (int)in_range(0,K),null = in_bool(); ASSUME(next <= budget);
    P.pos = p; P.toknext = next; P.toksuper = (int)in_range(-1,K); P0 = P;
    int r = jsmn_parse_primitive(&P,js,len,null ? 0 : T,budget),e = ref_primitive(p);
    if (e < 0) CHECK("primitive_rejected",r == e && P.pos == p && P.toknext == next);
    else if (!null && next >= budget) CHECK("primitive_without_room",r == JSMN_ERROR_NOMEM && P.pos == p && P.toknext == next);
    else
    {
        CHECK("primitive_accepted",r == 0 && P.pos == e - 1 && P.toknext == next + !null);
        if (!null) CHECK("primitive_token",T[next].type == T_PRIMITIVE && T[next].start == p && T[next].end == e && T[next].size == 0 && T[next].parent == P0.toksuper);
    }
    CHECK("primitive_keeps_super",P.toksuper == P0.toksuper);
    int k = (int)in_range(-GAP,K + GAP - 1);
    CHECK("primitive_writes_one_token",(r == 0 && !null && k == next) || same_tok(T + k,keep + GAP + k));
    REACH();
}
/* ---- texts of any length: the scanners by loop invariant */
#ifdef VH_CBMC
static void long_text(void)
{
    unsigned long n = in_urange(1,0x7ffffffe); js = malloc(n); ASSUME(js != 0); len = (int)n;
    T = tok + GAP;
    struct jsmntok_t g; g.type = (unsigned)in_range(0,4); g.start = in_i32(); g.end = in_i32(); g.parent = in_i32(); g.size = in_i32(); g.total_size = in_i32();
    for (int i = 0;i < K + 2*GAP;i++) keep[i] = tok[i] = g;
}
H(string_long)
{
    long_text();
    unsigned p = (unsigned)in_urange(0,0x7ffffffe); ASSUME(p < (unsigned)len && js[p] == '"');
    int budget = (int)in_range(0,K),next = (int)in_range(0,K),null = in_bool(); ASSUME(next <= budget);
    P.pos = p; P.toknext = next; P.toksuper = (int)in_range(-1,K); P0 = P; vh_gpos = p;
    int r = jsmn_parse_string(&P,js,len,null ? 0 : T,budget);
    CHECK("string_result",r == 0 || r == JSMN_ERROR_INVAL || r == JSMN_ERROR_PART || r == JSMN_ERROR_NOMEM && !null && next == budget);
    if (r) CHECK("string_rejected_keeps_state",P.pos == p && P.toknext == next);
    else
    {
        CHECK("string_ends_at_a_quote",P.pos > p && P.pos < (unsigned)len && js[P.pos] == '"');
        CHECK("string_takes_a_token",P.toknext == next + !null);
        if (!null) CHECK("string_token",T[next].type == T_STRING && T[next].start == (int)p + 1 && T[next].end == (int)P.pos && T[next].size == 0 && T[next].parent == P0.toksuper);
    }
    CHECK("string_keeps_super",P.toksuper == P0.toksuper);
    int k = (int)in_range(-GAP,K + GAP - 1);
    CHECK("string_writes_one_token",(r == 0 && !null && k == next) || same_tok(T + k,keep + GAP + k));
    REACH();
}
H(primitive_long)
{
    long_text();
    unsigned p = (unsigned)in_urange(0,0x7ffffffe); ASSUME(p < (unsigned)len && js[p] != 0 && !delim(js[p]));
    int budget = (int)in_range(0,K),next = (int)in_range(0,K),null = in_bool(); ASSUME(next <= budget);
    P.pos = p; P.toknext = next; P.toksuper = (int)in_range(-1,K); P0 = P; vh_gpos = p;
    vh_gk = in_urange(0,0x7ffffffe);
    int r = jsmn_parse_primitive(&P,js,len,null ? 0 : T,budget);
    CHECK("primitive_result",r == 0 || r == JSMN_ERROR_INVAL || r == JSMN_ERROR_NOMEM && !null && next == budget);
    if (r) CHECK("primitive_rejected_keeps_state",P.pos == p && P.toknext == next);
    else
    {
        CHECK("primitive_has_a_character",P.pos >= p && P.pos < (unsigned)len);
        CHECK("primitive_ends_at_a_delimiter",P.pos + 1 == (unsigned)len || js[P.pos + 1] == 0 || delim(js[P.pos + 1]));
        if (vh_gk >= p && vh_gk <= P.pos) CHECK("primitive_is_printable",js[vh_gk] >= 32 && js[vh_gk] < 127 && !delim(js[vh_gk]));
        CHECK("primitive_takes_a_token",P.toknext == next + !null);
        if (!null) CHECK("primitive_token",T[next].type == T_PRIMITIVE && T[next].start == (int)p && T[next].end == (int)P.pos + 1 && T[next].size == 0 && T[next].parent == P0.toksuper);
    }
    CHECK("primitive_keeps_super",P.toksuper == P0.toksuper);
    int k = (int)in_range(-GAP,K + GAP - 1);
    CHECK("primitive_writes_one_token",(r == 0 && !null && k == next) || same_tok(T + k,keep + GAP + k));
    REACH();
}
#endif
#if defined(VH_CBMC) && defined(TAB)
/* the scanners by their exact results (units string and primitive) */
static int take(struct jsmn_parser *q,int type,int from,int e,int next,struct jsmntok_t *k,unsigned budget)
{
    if (e < 0) return e;
    if (k)
    {
        if (q->toknext >= budget) return JSMN_ERROR_NOMEM;
        struct jsmntok_t *x = k + q->toknext++; x->type = (unsigned)type; x->start = from; x->end = e; x->size = 0; x->parent = q->toksuper;
    }
    q->pos = (unsigned)next;
    return 0;
}
int jsmn_parse_string(struct jsmn_parser *q,const char *t,unsigned long n,struct jsmntok_t *k,unsigned long budget)
{
    CHECK("string_starts_at_a_quote",q->pos < n && t[q->pos] == '"' && t == js && n == (unsigned long)len);
    int e = E_[q->pos]; return take(q,T_STRING,(int)q->pos + 1,e,e,k,(unsigned)budget);
}
int jsmn_parse_primitive(struct jsmn_parser *q,const char *t,unsigned long n,struct jsmntok_t *k,unsigned long budget)
{
    CHECK("primitive_starts_at_its_first_character",q->pos < n && t[q->pos] != 0 && !delim(t[q->pos]) && t == js && n == (unsigned long)len);
    int e = E_[q->pos]; return take(q,T_PRIMITIVE,(int)q->pos,e,e - 1,k,(unsigned)budget);
}
#elif defined(VH_CBMC) && defined(VH_REPL_jsmn_parse_string)
/* the scanners by their contracts above */
int jsmn_parse_string(struct jsmn_parser *q,const char *t,unsigned long n,struct jsmntok_t *k,unsigned long budget)
{
    CHECK("string_starts_at_a_quote",q->pos < n && t[q->pos] == '"' && t == js && n == (unsigned long)len);
    int r = (int)in_range(-3,0); if (r) { ASSUME(r != JSMN_ERROR_NOMEM || k && q->toknext >= budget); return r; }
    unsigned e = (unsigned)in_urange(0,0x7ffffffe); ASSUME(e > q->pos && e < n && t[e] == '"');
    if (k)
    {
        ASSUME(q->toknext < budget);
        struct jsmntok_t *x = k + q->toknext++; x->type = T_STRING; x->start = (int)q->pos + 1; x->end = (int)e; x->size = 0; x->parent = q->toksuper;
    }
    q->pos = e;
    return 0;
}
int jsmn_parse_primitive(struct jsmn_parser *q,const char *t,unsigned long n,struct jsmntok_t *k,unsigned long budget)
{
    CHECK("primitive_starts_at_its_first_character",q->pos < n && t[q->pos] != 0 && !delim(t[q->pos]) && t == js && n == (unsigned long)len);
    int r = (int)in_range(-3,0); if (r) { ASSUME(r != JSMN_ERROR_PART); ASSUME(r != JSMN_ERROR_NOMEM || k && q->toknext >= budget); return r; }
    unsigned e = (unsigned)in_urange(0,0x7ffffffe); ASSUME(e >= q->pos && e < n);
    ASSUME(vh_gk < q->pos || vh_gk > e || !delim(t[vh_gk]) && t[vh_gk] >= 32);
    if (k)
    {
        ASSUME(q->toknext < budget);
        struct jsmntok_t *x = k + q->toknext++; x->type = T_PRIMITIVE; x->start = (int)q->pos; x->end = (int)e + 1; x->size = 0; x->parent = q->toksuper;
    }
    q->pos = e;
    return 0;
}
#define CONT(x) ((x).type == T_OBJECT || (x).type == T_ARRAY)
#define BEG(x) ((x).start - ((x).type == T_STRING))
#define FIN(x) ((x).end + ((x).type == T_STRING))
/* a leads up to b over the parent links */
static int leads(const struct jsmntok_t *t,int a,int b) { for (int s = 0;s < K;s++) { if (a == b) return 1; if (a < 0 || a >= K) return 0; a = t[a].parent; } return a == b; }
/* what holds between two characters; also of every intermediate result */
int vh_inv(const struct jsmn_parser *q,const struct jsmntok_t *t,const char *s,unsigned long n,unsigned budget)
{
    if (!(q->pos <= n && q->toknext <= budget && q->toksuper >= -1 && q->toksuper < (int)q->toknext)) return 0;
    int m = (int)q->toknext,cover = 0,ok = 1;
    for (int i = 0;i < K;i++) if (i < m)
    {
        struct jsmntok_t x = t[i];
        if (!(x.parent >= -1 && x.parent < i)) return 0;
        if (!(x.type >= T_OBJECT && x.type <= T_PRIMITIVE)) return 0;
        if (!(BEG(x) >= 0 && x.start >= 0 && BEG(x) < (int)q->pos)) return 0;
        if (!(x.end == -1 ? CONT(x) : x.end >= x.start && FIN(x) > BEG(x) && FIN(x) <= (int)q->pos)) return 0;
        if (CONT(x) && s[x.start] != (x.type == T_OBJECT ? '{' : '[')) return 0;
        if (CONT(x) && x.end != -1 && s[x.end - 1] != (x.type == T_OBJECT ? '}' : ']')) return 0;
        if (x.type == T_STRING && (s[x.start - 1] != '"' || s[x.end] != '"')) return 0;
        for (int j = 0;j < i;j++)
        {
            struct jsmntok_t y = t[j];
            if (BEG(y) >= BEG(x)) ok = 0;
            /* y is over before x begins, or x lies inside the container y */
            if (!(y.end != -1 && FIN(y) <= BEG(x) || CONT(y) && (y.end == -1 || x.end != -1 && FIN(x) < FIN(y)))) ok = 0;
            if (CONT(y) && (y.end == -1 || y.end > x.start) && !leads(t,i,j)) ok = 0;
        }
        int kids = 0; for (int j = 0;j < K;j++) if (j > i && j < m && t[j].parent == i) kids++;
        if (x.size != kids) ok = 0;
        if (x.end == -1 && !leads(t,q->toksuper,i)) ok = 0;
        int g = (int)vh_gk;
        if (x.end == -1 ? g == x.start : CONT(x) ? g == x.start || g == x.end - 1 : g >= BEG(x) && g < FIN(x)) cover = 1;
    }
    /* the character at an arbitrary position already read belongs to a token unless it is white space or a separator */
    if (vh_gk < q->pos && s[vh_gk] != ' ' && s[vh_gk] != '\t' && s[vh_gk] != '\r' && s[vh_gk] != '\n' && s[vh_gk] != ':' && s[vh_gk] != ',' && !cover) ok = 0;
    return ok;
}
H(parse_long)
{
    long_text(); vh_gk = in_urange(0,0x7ffffffe); ASSUME(vh_gk < (unsigned)len);
    int budget = (int)in_range(0,K);
    jsmn_init(&P);
    int r = jsmn_parse(&P,js,len,T,budget);
    CHECK("parse_result",r >= -3 && (r < 0 || r == (int)P.toknext));
    if (r >= 0)
    {
        CHECK("whole_text_is_read",P.pos == (unsigned)len || js[P.pos] == 0);
        CHECK("tokens_nested_and_matching",vh_inv(&P,T,js,len,budget));
        int i = (int)in_range(0,K); ASSUME(i < r);
        CHECK("containers_are_closed",T[i].end >= 0);
    }
    int k = (int)in_range(-GAP,K + GAP - 1);
    if (k < 0 || k >= budget) CHECK("parse_writes_its_tokens_only",same_tok(T + k,keep + GAP + k));
    REACH();
}
#endif
/* with a token array */
static void do_parse(void)
{
    table();
    int budget = (int)in_range(0,K);
    jsmn_init(&P);
    CHECK("init",P.pos == 0 && P.toknext == 0 && P.toksuper == -1);
    int r = jsmn_parse(&P,js,len,T,budget);
    int w = ref_parse(budget,0);
    CHECK("parse_result",r == w);
    if (r >= 0)
    {
        int i = (int)in_range(0,K); ASSUME(i < r);
        CHECK("token_as_in_the_text",T[i].type == R[i].type && T[i].start == R[i].start && T[i].end == R[i].end);
        CHECK("parent_comes_before",T[i].parent >= -1 && T[i].parent < i);
        int kids = 0; for (int j = 0;j < K;j++) if (j < r && T[j].parent == i) kids++;
        CHECK("size_counts_the_children",T[i].size == kids);
        /* the innermost container around a token is reached over its parents */
        int in = -1; for (int j = 0;j < K;j++) if (j < i && R[j].type <= T_ARRAY && R[j].end >= R[i].end) in = j;
        int a = T[i].parent; for (int j = 0;j < K;j++) if (a >= 0 && !(T[a].type <= T_ARRAY && T[a].end > T[i].start)) a = T[a].parent;
        CHECK("nested_under_its_container",a == in);
    }
    int k = (int)in_range(-GAP,K + GAP - 1);
    if (k < 0 || k >= budget) CHECK("parse_writes_its_tokens_only",same_tok(T + k,keep + GAP + k));
    REACH();
}
/* without a token array, and once more with exactly as many tokens as counted */
static void do_count(void)
{
    table();
    jsmn_init(&P);
    int r = jsmn_parse(&P,js,len,0,0);
    CHECK("counted",r == ref_parse(0,1));
    REACH();
}
static void do_twice(void)
{
    table();
    jsmn_init(&P); int n = jsmn_parse(&P,js,len,0,0);
    jsmn_init(&P); int a = jsmn_parse(&P,js,len,T,K);
    jsmn_init(&P); int b = jsmn_parse(&P,js,len,tok2 + GAP,n < 0 ? 0 : n);
    if (a >= 0)
    {
        CHECK("count_is_exact",n == a);
        CHECK("accepted_again",b == a);
        int i = (int)in_range(0,K); ASSUME(i < a);
        CHECK("same_tokens_again",same_tok(T + i,tok2 + GAP + i));
    }
    else if (n >= 0) CHECK("refused_again",b < 0);
    REACH();
}
H(parse) { any_text(LEN_); do_parse(); }
H(count) { any_text(LEN_); do_count(); }
H(twice) { any_text(LEN_); do_twice(); }
H(parse_syntax) { syntax_text(); do_parse(); }
H(twice_syntax) { syntax_text(); do_twice(); }
