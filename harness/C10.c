/* C10: sibling lists of the tree under construction.
   The state is any set of disjoint circles: `next` is any permutation of the elements, `prev` its inverse (that is what a
   well formed heap of lists is). Each operation touches only the elements it names and their direct neighbours, so the
   clauses are stated link by link for an arbitrary element k: what next[k]/prev[k] must be afterwards. The arena has one
   element more than the operation can touch; all other elements behave as that one. */
#define BIN_WRITE_ELEMENT_FLAG 1
#define BIN_DELETED 8
#ifndef N
#define N 7
#endif
static struct { unsigned char pool[sizeof(struct BW_pool)]; struct BW_element el[N]; } A;
static int nx[N],pv[N];                                 /* ghost: links before */
static struct BW_element E0[N];
#define OFS(i) ((int)(sizeof A.pool + (i)*sizeof(struct BW_element)))
static int idx(int o) { int d = o - (int)sizeof A.pool; return d >= 0 && d % (int)sizeof(struct BW_element) == 0 && d / (int)sizeof(struct BW_element) < N ? d / (int)sizeof(struct BW_element) : -1; }
static int pick(void) { return (int)in_range(0,N-1); }
/* any well formed heap of circles */
static void any_heap(void)
{
    for (int i = 0;i < N;i++) pv[i] = -1;
    for (int i = 0;i < N;i++) nx[i] = pick();
    for (int i = 0;i < N;i++) pv[nx[i]] = i;
    for (int i = 0;i < N;i++) ASSUME(pv[nx[i]] == i);
    for (int i = 0;i < N;i++)
    {
        struct BW_element *e = &A.el[i];
        e->offset = OFS(i); e->next = OFS(nx[i]); e->prev = OFS(pv[i]);
        e->identification = (short)in_range(0,2); e->flags = (unsigned char)in_range(0,1); e->value_type = XBT_NULL;
        e->first_child = 0; e->first_attribute = 0;
    }
}
static void keep(void) { memcpy(E0,A.el,sizeof E0); }
/* walks the circle of a: mask of members */
static unsigned circle(const int *n,int a) { unsigned m = 0; for (int i = 0;i < N;i++) { m |= 1u << a; a = n[a]; } return m; }
#define NXT(i) idx(A.el[i].next)
#define PRV(i) idx(A.el[i].prev)
static int same_links(int k) { return A.el[k].next == E0[k].next && A.el[k].prev == E0[k].prev; }
/* everything but the links */
static int same_rest(int k) { return A.el[k].offset == E0[k].offset && A.el[k].identification == E0[k].identification && A.el[k].value_type == E0[k].value_type; }
static int same_heads(int k) { return A.el[k].first_child == E0[k].first_child && A.el[k].first_attribute == E0[k].first_attribute; }

H(init)
{
    int i = pick(); int id = (int)(int16_t)in_u16(),t = (int)in_range(0,XBT_LAST),f = (int)in_range(0,31);
    any_heap(); keep();
    ((struct BW_pool*)&A)->file_size = sizeof A;
    BW_element__init(&A.el[i],(struct BW_pool*)&A,(short)id,(signed char)t,(signed char)f);
    struct BW_element *e = &A.el[i];
    CHECK("new_element_is_its_own_circle",e->offset == OFS(i) && e->next == OFS(i) && e->prev == OFS(i));
    CHECK("new_element_has_no_children",e->first_child == 0 && e->first_attribute == 0);
    CHECK("new_element_is_as_asked",e->identification == id && e->value_type == t && e->flags == f);
    int k = pick(); if (k != i) CHECK("init_touches_only_the_element",memcmp(&A.el[k],&E0[k],sizeof E0[k]) == 0);
    REACH();
}
H(join)
{
    any_heap(); int a = pick(),b = pick(); ASSUME(a != b);
    keep();
    struct BW_element *r = BW_element__join(&A.el[a],&A.el[b]);
    CHECK("join_returns_the_list",r == &A.el[a]);
    int k = pick();
    CHECK("joined_next",NXT(k) == (k == pv[a] ? b : k == pv[b] ? a : nx[k]));
    CHECK("joined_prev",PRV(k) == (k == a ? pv[b] : k == b ? pv[a] : pv[k]));
    CHECK("join_changes_links_only",same_rest(k) && same_heads(k) && A.el[k].flags == E0[k].flags);
    REACH();
}
H(join_order)
{
    any_heap(); int a = pick(),b = pick();
    ASSUME(!(circle(nx,a) >> b & 1)); keep();
    BW_element__join(&A.el[a],&A.el[b]);
    /* the circle of a is now its old members and then those of b, in their order */
    int p = a,q = a,left = 1;
    for (int i = 0;i < N;i++)
    {
        CHECK("joined_order",p == q);
        p = NXT(p); ASSUME(p >= 0);
        if (left) { q = nx[q]; if (q == a) { q = b; left = 0; } } else { q = nx[q]; if (q == b) { q = a; left = 1; } }
    }
    REACH();
}
H(add)
{
    any_heap(); int p = pick(),t = pick(); int elem = A.el[t].flags & BIN_WRITE_ELEMENT_FLAG; int h = (int)in_range(-1,N-1);
    ASSUME(p != t);
    if (h >= 0) { ASSUME(h != t); if (elem) A.el[p].first_child = OFS(h); else A.el[p].first_attribute = OFS(h); }
    int other = (int)in_range(-1,N-1); if (other >= 0) { if (elem) A.el[p].first_attribute = OFS(other); else A.el[p].first_child = OFS(other); }
    keep();
    CHECK("add_returns_the_parent",BW_element__add(&A.el[p],&A.el[t]) == &A.el[p]);
    int k = pick();
    CHECK("first_of_an_empty_list",(elem ? A.el[p].first_child : A.el[p].first_attribute) == OFS(h < 0 ? t : h));
    CHECK("other_list_kept",(elem ? A.el[p].first_attribute : A.el[p].first_child) == (elem ? E0[p].first_attribute : E0[p].first_child));
    if (h < 0) CHECK("added_alone_keeps_links",same_links(k));
    else
    {
        CHECK("added_last_next",NXT(k) == (k == pv[h] ? t : k == pv[t] ? h : nx[k]));
        CHECK("added_last_prev",PRV(k) == (k == h ? pv[t] : k == t ? pv[h] : pv[k]));
    }
    CHECK("add_changes_nothing_else",same_rest(k) && A.el[k].flags == E0[k].flags && (k == p || same_heads(k)));
    REACH();
}
H(remove)
{
    any_heap(); int p = pick(),t = pick(); int elem = A.el[t].flags & BIN_WRITE_ELEMENT_FLAG; int h = pick();
    ASSUME(p != t);
    if (elem) A.el[p].first_child = OFS(h); else A.el[p].first_attribute = OFS(h);
    keep();
    CHECK("remove_returns_the_parent",BW_element__remove(&A.el[p],&A.el[t]) == &A.el[p]);
    int k = pick();
    CHECK("list_starts_at_the_next",(elem ? A.el[p].first_child : A.el[p].first_attribute) == (h != t ? OFS(h) : nx[t] == t ? 0 : OFS(nx[t])));
    CHECK("removed_is_alone",A.el[t].next == OFS(t) && A.el[t].prev == OFS(t) && A.el[t].flags == (E0[t].flags | BIN_DELETED));
    if (k != t)
    {
        CHECK("removed_next",NXT(k) == (k == pv[t] ? nx[t] : nx[k]));
        CHECK("removed_prev",PRV(k) == (k == nx[t] ? pv[t] : pv[k]));
        CHECK("remove_changes_nothing_else",same_rest(k) && A.el[k].flags == E0[k].flags && (k == p || same_heads(k)));
    }
    REACH();
}
H(replace)
{
    any_heap(); int p = pick(),t = pick(),w = pick(); int elem = A.el[t].flags & BIN_WRITE_ELEMENT_FLAG; int h = pick();
    ASSUME(p != t && p != w && w != t); ASSUME(nx[w] == w && h != w);
    A.el[w].flags = A.el[t].flags;
    if (elem) A.el[p].first_child = OFS(h); else A.el[p].first_attribute = OFS(h);
    keep();
    CHECK("replace_returns_the_parent",BW_element__replace(&A.el[p],&A.el[t],&A.el[w]) == &A.el[p]);
    int k = pick();
    CHECK("list_starts_at_the_replacement",(elem ? A.el[p].first_child : A.el[p].first_attribute) == (h == t ? OFS(w) : OFS(h)));
    CHECK("replaced_is_alone",A.el[t].next == OFS(t) && A.el[t].prev == OFS(t) && A.el[t].flags == (E0[t].flags | BIN_DELETED));
    /* w takes the place of t: the links of t with t renamed to w */
    if (k != t)
    {
        int s = k == w ? t : k; int n = nx[s] == t ? w : nx[s],v = pv[s] == t ? w : pv[s];
        CHECK("replacement_next",NXT(k) == n);
        CHECK("replacement_prev",PRV(k) == v);
        CHECK("replace_changes_nothing_else",same_rest(k) && A.el[k].flags == E0[k].flags && (k == p || same_heads(k)));
    }
    REACH();
}
H(replace_refused)
{
    any_heap(); int p = pick(),t = pick(),w = pick(); ASSUME(p != t && p != w && w != t); ASSUME(nx[w] != w); keep();
    CHECK("replacement_in_a_list_is_refused",BW_element__replace(&A.el[p],&A.el[t],&A.el[w]) == 0);
    int k = pick(); CHECK("refused_replace_changes_nothing",memcmp(&A.el[k],&E0[k],sizeof E0[k]) == 0);
    REACH();
}
/* one step of a walk over the children, forward and backward, from any position */
H(walk_step)
{
    any_heap(); int p = pick(),h = (int)in_range(-1,N-1); if (h >= 0) A.el[p].first_child = OFS(h); keep();
    int c = (int)in_range(-1,N-1); ASSUME(c < 0 || h >= 0 && (circle(nx,h) >> c & 1));
    int back = in_bool(); int o = c < 0 ? 0 : OFS(c);
    struct BW_element *r = back ? BW_element__PrevChild(&A.el[p],&o) : BW_element__NextChild(&A.el[p],&o);
    int want = h < 0 ? -1 : back ? (c < 0 ? pv[h] : c == h ? -1 : pv[c]) : (c < 0 ? h : nx[c] == h ? -1 : nx[c]);
    CHECK("walk_step_is_the_neighbour",want < 0 ? r == 0 : r == &A.el[want]);
    if (want >= 0) CHECK("walk_step_moves_the_position",o == OFS(want));
    int k = pick(); CHECK("walk_changes_nothing",memcmp(&A.el[k],&E0[k],sizeof E0[k]) == 0);
    REACH();
}
/* finding by name: the first element of the list with the id */
#ifndef ATT
#define ATT in_bool()
#define SECOND in_bool()
#define LEN (int)in_range(0,N-1)
#define REV in_bool()
#endif
/* a list of LEN elements, in the order of their places or backwards; the parent is element N-1 */
H(find)
{
    int at = ATT,id = (int)in_range(0,3),second = SECOND,len = LEN,rev = REV,p = N-1,h = rev ? len - 1 : 0;
    for (int i = 0;i < N;i++)
    {
        struct BW_element *e = &A.el[i];
        int f = i + 1 < len ? i + 1 : 0,b = i > 0 ? i - 1 : len - 1; if (i >= len) f = b = i;
        e->offset = OFS(i); e->next = OFS(rev ? b : f); e->prev = OFS(rev ? f : b); e->identification = (short)in_range(0,2); e->flags = 0; e->value_type = XBT_NULL; e->first_child = e->first_attribute = 0;
    }
    if (len > 0) { if (at) A.el[p].first_attribute = OFS(h); else A.el[p].first_child = OFS(h); }
    keep();
    struct BW_element *r = at ? (second ? BW_element__findAttr(&A.el[p],(short)id) : BW_element__attrGet(&A.el[p],(short)id)) : (second ? BW_element__findChildByTag(&A.el[p],(short)id) : BW_element__tagGet(&A.el[p],(short)id));
    int want = -1;
    for (int i = 0;i < len;i++) { int c = rev ? len - 1 - i : i; if (want < 0 && A.el[c].identification == id) want = c; }
    CHECK("found_is_the_first_with_the_name",want < 0 ? r == 0 : r == &A.el[want]);
    int k = pick(); CHECK("find_changes_nothing",memcmp(&A.el[k],&E0[k],sizeof E0[k]) == 0);
    REACH();
}
H(nothing)
{
    any_heap(); int p = pick(); keep();
    CHECK("adding_nothing",BW_element__add(&A.el[p],0) == &A.el[p]);
    CHECK("removing_nothing",BW_element__remove(&A.el[p],0) == &A.el[p]);
    CHECK("removing_from_an_empty_list",BW_element__remove(&A.el[p],&A.el[(p + 1) % N]) == &A.el[p]);
    CHECK("replacing_nothing",BW_element__replace(&A.el[p],0,&A.el[p]) == 0);
    int k = pick(); CHECK("nothing_changes_nothing",memcmp(&A.el[k],&E0[k],sizeof E0[k]) == 0);
    REACH();
}
