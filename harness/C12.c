/* C12: the registry of tag and attribute names of a writer (symbol tables inside the pool).
   Record: id (2 bytes), type (1 byte), name, NUL, padding to 4 bytes. Number of records and lengths of names are compile time
   constants (variants of the unit), the characters, types and the names asked for are arbitrary. */
#ifndef LENS
#define LENS 2,3,0
#endif
#ifndef TAGS
#define TAGS 1
#endif
#define QLEN 6
#define ROOM 160
static const int L_[] = { LENS };
#define NREC ((int)(sizeof L_/sizeof L_[0]) - 1)        /* the last entry ends the list */
static _Alignas(16) unsigned char mem[sizeof(struct BW_pool) + ROOM],mem0[sizeof(struct BW_pool) + ROOM];
#define PL ((struct BW_pool*)mem)
#define HDR ((int)sizeof(struct BW_pool))
static struct BW_symbol_table_16B *TB; static int beg_,end_; static int off_[8]; static struct BW_plugin W;
static int up4(int x) { return (x + 3) & ~3; }
static void record(int at,int id,const char *n,int len,int type)
{
    mem[at] = (unsigned char)id; mem[at + 1] = (unsigned char)(id >> 8); mem[at + 2] = (unsigned char)type;
    for (int i = 0;i < len;i++) mem[at + 3 + i] = (unsigned char)n[i];
    mem[at + 3 + len] = 0;
}
/* `before` bytes of other data, the table, `after` bytes of other data */
static void any_table(int before,int after,int index)
{
    TB = TAGS ? &PL->tags : &PL->params;
    PL->tags.max_id = PL->params.max_id = -1; PL->tags.names_offset = HDR; PL->params.names_offset = HDR;
    PL->file_size = PL->mmap_size = sizeof mem; PL->allocator_limit = sizeof mem;
    memcpy(PL->binary_xml_write_type_info,"binary_xml.pksoft.org",22);
    int p = HDR + before; beg_ = p;
    for (int k = 0;k < NREC;k++)
    {
        char n[QLEN]; for (int i = 0;i < L_[k];i++) { n[i] = (char)in_u8(); ASSUME(n[i] != 0); }
        off_[k] = p; record(p,k,n,L_[k],(int)in_range(0,XBT_LAST - 1));
        p = up4(p + 3 + L_[k] + 1);
    }
    end_ = p;
    TB->max_id = NREC - 1; TB->names_offset = NREC ? beg_ : (in_bool() ? beg_ : 0); TB->index = 0; TB->flags = 0;
    p += after;
    if (index) { TB->index = p; for (int k = 0;k < NREC;k++) { int o = off_[k]; memcpy(mem + p,&o,4); p += 4; } }
    PL->allocator = p;
    W.pool = PL; W.check_only = 0; W.check_failures = 0; W.initialized = 1;
}
static void keep(void) { memcpy(mem0,mem,sizeof mem); }
static int name_is(const unsigned char *m,int k,const char *q) { for (int i = 0;i <= L_[k];i++) if ((char)m[off_[k] + 3 + i] != q[i]) return 0; return 1; }
/* NUL terminated name of up to QLEN-1 characters */
static char Q[QLEN + 1]; static int ql;
static void any_name(void) { ql = 0; for (int i = 0;i < QLEN - 1;i++) Q[i] = (char)in_u8(); Q[QLEN - 1] = Q[QLEN] = 0; while (ql < QLEN - 1 && Q[ql]) ql++; }
static int find(const char *q) { for (int k = 0;k < NREC;k++) if (name_is(mem,k,q)) return k; return -1; }
static int same_bytes(int from,int to) { int i = (int)in_range(0,sizeof mem - 1); return i < from || i >= to || mem[i] == mem0[i]; }
#ifdef IDX
#define IX IDX
#else
#define IX 0
#endif
#ifdef AFTER
#define AF AFTER
#else
#define AF 0
#endif
H(get_by_name)
{
    any_table(0,AF,IX); any_name(); keep();
    BW_offset_t o = -7; XML_Binary_Type t = -7; int want_o = in_bool(),want_t = in_bool();
    int e = find(Q);
    int r = BW_symbol_table_16B__getByName(TB,PL,Q,want_o ? &o : 0,want_t ? &t : 0);
    CHECK("found_exactly_when_registered",r == e);
    if (e >= 0 && want_o) CHECK("offset_of_the_record",o == off_[e]);
    if (e >= 0 && want_t) CHECK("type_of_the_record",t == mem[off_[e] + 2]);
    if (e < 0) CHECK("nothing_found_changes_nothing",o == -7 && t == -7);
    CHECK("lookup_changes_nothing",same_bytes(0,sizeof mem));
    REACH();
}
H(get_by_id)
{
    any_table(0,AF,IX); keep();
    int id = (int)in_range(0,NREC + 1);
    const char *n = BW_symbol_table_16B__getName(TB,PL,id);
    signed char *t = (signed char*)BW_symbol_table_16B__getType(TB,PL,id);
    CHECK("name_of_the_id",(const void*)n == (id < NREC ? (const void*)(mem + off_[id] + 3) : 0));
    CHECK("type_of_the_id",(void*)t == (id < NREC ? (void*)(mem + off_[id] + 2) : 0));
    CHECK("no_type_of_a_negative_id",BW_symbol_table_16B__getType(TB,PL,-1) == 0);
    CHECK("lookup_changes_nothing",same_bytes(0,sizeof mem));
    REACH();
}
H(sizes)
{
    any_table(0,AF,IX); if (NREC == 0) TB->names_offset = 0;
    keep();
    CHECK("size_of_all_names",BW_symbol_table_16B__getNamesSize(TB,PL) == end_ - beg_);
    CHECK("valid_table_is_accepted",BW_symbol_table_16B__check(TB,PL));
    CHECK("size_changes_nothing",same_bytes(0,sizeof mem));
    if (NREC > 0 && IX)
    {
        int k = (int)in_range(0,NREC - 1),v = in_i32(); ASSUME(v < beg_ || v >= end_);
        memcpy(mem + TB->index + 4*k,&v,4);
        CHECK("index_outside_of_the_names_is_refused",!BW_symbol_table_16B__check(TB,PL));
    }
    REACH();
}
H(make_table)
{
    any_table(0,AF,0); int room = NREC ? in_bool() : 1; if (!room) PL->allocator_limit = PL->allocator + (NREC - 1)*4;
    keep();
    int a = PL->allocator;
    int r = BW_pool__makeTable(PL,TB);
    CHECK("table_made_when_it_fits",r == room);
    if (r && NREC)
    {
        int k = (int)in_range(0,NREC - 1),o; CHECK("table_inside_of_the_pool",TB->index == a && PL->allocator == a + 4*NREC);
        memcpy(&o,mem + TB->index + 4*k,4);
        CHECK("index_points_to_the_name",o == off_[k]);
    }
    else CHECK("no_table",TB->index == 0);
    CHECK("names_are_kept",same_bytes(beg_,a) && TB->max_id == NREC - 1 && TB->names_offset == ((struct BW_symbol_table_16B*)(mem0 + ((unsigned char*)TB - mem)))->names_offset);
    REACH();
}
/* the index is used by the readers of the pool */
H(by_index)
{
    any_table(0,AF,1); keep();
    int id = (int)in_range(0,NREC + 1);
    const char *n = TAGS ? BW_pool__getTagName(PL,(short)id) : BW_pool__getAttrName(PL,(short)id);
    int t = TAGS ? BW_pool__getTagType(PL,(short)id) : BW_pool__getAttrType(PL,(short)id);
    CHECK("name_by_index",(const void*)n == (id < NREC ? (const void*)(mem + off_[id] + 3) : 0));
    CHECK("type_by_index",t == (id < NREC ? mem[off_[id] + 2] : XBT_UNKNOWN));
    TB->index = 0;
    CHECK("nothing_without_an_index",(TAGS ? BW_pool__getTagName(PL,0) : BW_pool__getAttrName(PL,0)) == 0 && (TAGS ? BW_pool__getTagType(PL,0) : BW_pool__getAttrType(PL,0)) == XBT_UNKNOWN);
    REACH();
}
/* a name is taken over; o: where the table is afterwards */
static int moved(int k,int o) { for (int i = 0;i < L_[k] + 4;i++) if (mem[o + off_[k] - beg_ + i] != mem0[off_[k] + i]) return 0; return 1; }
H(open)
{
    any_table(0,AF,IX); int room = (AF || IX) && NREC ? in_bool() : 1; if (!room) PL->allocator_limit = PL->allocator + (end_ - beg_) - 4;
    keep();
    int r = BW_symbol_table_16B__Open(TB,PL);
    CHECK("opened_when_it_fits",r == room);
    if (r)
    {
        CHECK("open_table_ends_the_pool",TB->index == 0 && TB->names_offset + (end_ - beg_) == PL->allocator);
        for (int k = 0;k < NREC;k++) CHECK("names_move_together",moved(k,TB->names_offset));
        CHECK("open_keeps_everything_else",same_bytes(beg_,((struct BW_pool*)mem0)->allocator) && TB->max_id == NREC - 1);
    }
    else CHECK("failed_open_changes_nothing",same_bytes(0,sizeof mem));
    REACH();
}
static int reg_id(int id,int t) { return TAGS ? BW_plugin__registerTag__int16_t_charp_XML_Binary_Type(&W,(short)id,Q,t) : BW_plugin__registerAttr(&W,(short)id,Q,t); }
static int reg_name(int t) { return TAGS ? BW_plugin__registerTag__charp_XML_Binary_Type(&W,Q,t) : BW_plugin__registerParam(&W,Q,t); }
static int appended(int id,int t)
{
    int o = TB->names_offset + (end_ - beg_);
    if (mem[o] != (id & 255) || mem[o + 1] != id >> 8 || mem[o + 2] != t) return 0;
    for (int i = 0;i <= QLEN - 1;i++) { if ((char)mem[o + 3 + i] != Q[i]) return 0; if (!Q[i]) break; }
    return PL->allocator == o + up4(3 + ql + 1);
}
H(register_id)
{
    any_table(0,AF,IX); any_name(); if (!TAGS) PL->tags.names_offset = HDR;
    int t = (int)in_range(-2,XBT_LAST + 1),ok = t >= XBT_NULL && t < XBT_LAST;
    int need = (AF || IX || !NREC ? end_ - beg_ : 0) + up4(3 + ql + 1),room = in_bool();
    if (!room) PL->allocator_limit = PL->allocator + need - 4;
    keep();
    int r = reg_id(NREC,t);
    CHECK("registered_when_it_fits",r == (ok && room));
    if (r)
    {
        CHECK("id_is_known",TB->max_id == NREC && TB->index == 0);
        CHECK("record_as_registered",appended(NREC,t));
        for (int k = 0;k < NREC;k++) CHECK("names_registered_before_are_kept",moved(k,TB->names_offset));
    }
    else CHECK("failed_registration_keeps_ids",TB->max_id == NREC - 1);
    CHECK("registration_keeps_other_data",same_bytes(HDR,((struct BW_pool*)mem0)->allocator));
    REACH();
}
H(register_name)
{
    any_table(0,AF,IX); any_name(); PL->tags.names_offset = TAGS ? PL->tags.names_offset : HDR;
    int t = (int)in_range(XBT_NULL,XBT_LAST - 1),e = find(Q);
    int need = (AF || IX ? end_ - beg_ : 0) + up4(3 + ql + 1),room = in_bool();
    if (!room) { ASSUME(NREC > 0); PL->allocator_limit = PL->allocator + need - 4; }
    keep();
    int r = reg_name(t);
    if (e >= 0)
    {
        int w = mem0[off_[e] + 2];
        CHECK("known_name_keeps_its_id",r == e && TB->max_id == NREC - 1 && PL->allocator == ((struct BW_pool*)mem0)->allocator);
        CHECK("types_are_joined",mem[off_[e] + 2] == (unsigned char)(w == t ? w : XBT_JoinTypes(t,w)));
        int i = (int)in_range(0,sizeof mem - 1); CHECK("nothing_else_changes",i == off_[e] + 2 || mem[i] == mem0[i]);
    }
    else if (room)
    {
        CHECK("new_name_has_the_next_id",r == NREC && TB->max_id == NREC && TB->index == 0);
        CHECK("record_as_registered",appended(NREC,t));
        for (int k = 0;k < NREC;k++) CHECK("names_registered_before_are_kept",moved(k,TB->names_offset));
        CHECK("registration_keeps_other_data",same_bytes(HDR,((struct BW_pool*)mem0)->allocator));
    }
    else CHECK("failed_registration_keeps_ids",r < 0 && TB->max_id == NREC - 1);
    REACH();
}
/* reopened for checking */
H(check_only)
{
    any_table(0,AF,1); any_name(); W.check_only = 1;
    int id = (int)in_range(-2,NREC + 1),t = (int)in_range(XBT_NULL,XBT_LAST - 1);
    keep();
    int r = reg_id(id,t);
    CHECK("only_the_same_registration_is_accepted",r == (id >= 0 && id < NREC && name_is(mem,id < 0 || id >= NREC ? 0 : id,Q) && mem[off_[id] + 2] == t));
    CHECK("refused_registrations_are_counted",W.check_failures == !r);
    CHECK("check_changes_nothing",same_bytes(0,sizeof mem));
    REACH();
}
H(alter)
{
    any_table(0,AF,IX); int id = (int)in_range(-1,NREC),t = (int)in_range(-2,XBT_LAST + 1);
    keep();
    int w = id >= 0 && id < NREC ? mem[off_[id] + 2] : 0;
    int ok = id >= 0 && id < NREC && t >= XBT_NULL && t < XBT_LAST && XBT_ConvertableType(w,t) == XBT_CONVERTABLE;
    int r = TAGS ? BW_plugin__alterTag(&W,(short)id,t) : BW_plugin__alterAttr(&W,(short)id,t);
    CHECK("type_altered_when_convertible",r == ok);
    int i = (int)in_range(0,sizeof mem - 1);
    CHECK("alter_changes_the_type_only",mem[i] == (ok && i == off_[id] + 2 ? t : mem0[i]));
    REACH();
}
/* native: a history of registrations against a list of what was registered */
#ifndef VH_CBMC
static _Alignas(16) unsigned char hmem[0x40000];
H(history)
{
    static char names[700][12]; static int types[700]; int n[2] = { 0,0 };
    memset(hmem,0,sizeof hmem);
    struct BW_pool *p = (struct BW_pool*)hmem; p->tags.max_id = p->params.max_id = -1; p->allocator = HDR; p->allocator_limit = p->file_size = p->mmap_size = sizeof hmem;
    memset(&W,0,sizeof W); W.pool = p;
    int steps = (int)in_range(1,in_bool() ? 12 : 330),few = in_bool();
    static int cnt[2]; cnt[0] = cnt[1] = 0;
    for (int s = 0;s < steps;s++)
    {
        int a = cnt[0] ? (int)in_range(0,few ? 9 : 1) == 0 : 0;                         /* attribute or tag */
        char q[12]; int l = (int)in_range(0,4); for (int i = 0;i < l;i++) q[i] = IN_CHARSET("abc"); q[l] = 0;
        if (!few) sprintf(q,"%c%d",a ? 'p' : 't',cnt[a]);
        int t = (int)in_range(0,2) ? XBT_INT32 : XBT_STRING,e = -1;
        for (int i = 0;i < cnt[a];i++) if (!strcmp(names[a*350 + i],q)) { e = i; break; }
        int byid = e < 0 && in_bool(),r;
        if (byid) r = (a ? BW_plugin__registerAttr(&W,(short)cnt[a],q,t) : BW_plugin__registerTag__int16_t_charp_XML_Binary_Type(&W,(short)cnt[a],q,t)) ? cnt[a] : -1;
        else r = a ? BW_plugin__registerParam(&W,q,t) : BW_plugin__registerTag__charp_XML_Binary_Type(&W,q,t);
        if (r < 0) ASSUME(p->allocator > (int)sizeof hmem/2);
        CHECK("history_id",r == (e >= 0 ? e : cnt[a]));
        if (e >= 0) types[a*350 + e] = types[a*350 + e] == t ? t : XBT_JoinTypes(t,types[a*350 + e]);
        else { strcpy(names[a*350 + cnt[a]],q); types[a*350 + cnt[a]] = t; cnt[a]++; }
    }
    for (int a = 0;a < 2;a++)
    {
        struct BW_symbol_table_16B *tb = a ? &p->params : &p->tags;
        for (int ix = 0;ix < 2;ix++)
        {
            if (ix && cnt[a]) { CHECK("history_index",BW_pool__makeTable(p,tb)); }
            CHECK("history_count",tb->max_id == cnt[a] - 1);
            for (int i = 0;i < cnt[a];i++)
            {
                const char *n = BW_symbol_table_16B__getName(tb,p,i); signed char *t = (signed char*)BW_symbol_table_16B__getType(tb,p,i);
                CHECK("history_name",n && !strcmp(n,names[a*350 + i]));
                CHECK("history_type",t && *t == types[a*350 + i]);
            }
        }
    }
    REACH();
}
#endif
