// Stand-in for the parts of YAZ++ that the program uses: values, caches, counters.
#include <yazpp/gdu.h>
#include <yazpp/z-query.h>
#include <yazpp/record-cache.h>
#include <yazpp/timestat.h>
#include <yazpp/limit-connect.h>
#include <yazpp/cql2rpn.h>
#include <yaz/oid_db.h>
#include <yaz/pquery.h>
#include <yaz/log.h>
#include <stdlib.h>
#include <string.h>
using namespace yazpp_1;

GDU::GDU() : m_gdu(0), m_decode(odr_createmem(ODR_DECODE)) {}
GDU::GDU(Z_APDU *apdu) : m_gdu(0), m_decode(0)
{
    ODR encode = odr_createmem(ODR_ENCODE);
    Z_GDU *gdu = (Z_GDU *) odr_malloc(encode, sizeof(*gdu));
    gdu->which = Z_GDU_Z3950;
    gdu->u.z3950 = apdu;
    base(gdu, encode);
    odr_destroy(encode);
}
GDU::GDU(Z_GDU *gdu) : m_gdu(0), m_decode(0)
{
    ODR encode = odr_createmem(ODR_ENCODE);
    base(gdu, encode);
    odr_destroy(encode);
}
GDU::GDU(const GDU &g) : m_gdu(0), m_decode(0)
{
    ODR encode = odr_createmem(ODR_ENCODE);
    base(g.get(), encode);
    odr_destroy(encode);
}
void GDU::base(Z_GDU *gdu, ODR encode)
{
    m_decode = odr_createmem(ODR_DECODE);
    m_gdu = 0;
    if (gdu && z_GDU(encode, &gdu, 0, "encode"))
    {
        int len;
        char *buf = odr_getbuf(encode, &len, 0);
        odr_setbuf(m_decode, buf, len, 0);
        if (!z_GDU(m_decode, &m_gdu, 0, 0))
            m_gdu = 0;
    }
}
GDU::~GDU() { odr_destroy(m_decode); }
Z_GDU *GDU::get() const { return m_gdu; }
GDU &GDU::operator=(const GDU &g)
{
    if (this != &g)
    {
        odr_destroy(m_decode);
        ODR encode = odr_createmem(ODR_ENCODE);
        base(g.get(), encode);
        odr_destroy(encode);
    }
    return *this;
}
int GDU::get_size()
{
    int len = 0;
    if (m_gdu)
    {
        ODR e = odr_createmem(ODR_ENCODE);
        if (z_GDU(e, &m_gdu, 0, "encode"))
            odr_getbuf(e, &len, 0);
        odr_destroy(e);
    }
    return len;
}

template<class T> static std::string enc(int (*fn)(ODR, T **, int, const char *), T *t)
{
    std::string r;
    if (!t) return r;
    ODR e = odr_createmem(ODR_ENCODE);
    if (fn(e, &t, 0, 0)) { int len; char *b = odr_getbuf(e, &len, 0); r.assign(b, len); }
    odr_destroy(e);
    return r;
}

Yaz_Z_Query::Yaz_Z_Query() : m_decode(odr_createmem(ODR_DECODE)) {}
Yaz_Z_Query::Yaz_Z_Query(const Yaz_Z_Query &o) : m_buf(o.m_buf), m_decode(odr_createmem(ODR_DECODE)) {}
Yaz_Z_Query::~Yaz_Z_Query() { odr_destroy(m_decode); }
Yaz_Z_Query &Yaz_Z_Query::operator=(const Yaz_Z_Query &o) { m_buf = o.m_buf; return *this; }
void Yaz_Z_Query::set_Z_Query(Z_Query *q) { m_buf = enc<Z_Query>(z_Query, q); }
Z_Query *Yaz_Z_Query::get_Z_Query()
{
    if (m_buf.empty()) return 0;
    odr_reset(m_decode);
    odr_setbuf(m_decode, (char *) m_buf.data(), m_buf.size(), 0);
    Z_Query *q = 0;
    if (!z_Query(m_decode, &q, 0, 0)) return 0;
    return q;
}
bool Yaz_Z_Query::match(const Yaz_Z_Query *o) { return m_buf == o->m_buf; }
int Yaz_Z_Query::set_rpn(const char *rpn)
{
    ODR e = odr_createmem(ODR_ENCODE);
    Z_Query q; q.which = Z_Query_type_1;
    YAZ_PQF_Parser p = yaz_pqf_create();
    q.u.type_1 = yaz_pqf_parse(p, e, rpn);
    yaz_pqf_destroy(p);
    int r = -1;
    if (q.u.type_1) { set_Z_Query(&q); r = 0; }
    odr_destroy(e);
    return r;
}

RecordCache::RecordCache() {}
RecordCache::~RecordCache() {}
void RecordCache::clear() { m_entries.clear(); }
void RecordCache::add(ODR, Z_NamePlusRecordList *npr, int start, Z_RecordComposition *comp)
{
    std::string c = enc<Z_RecordComposition>(z_RecordComposition, comp);
    for (int i = 0; i < npr->num_records; i++)
    {
        Entry e; e.pos = start + i; e.comp = c;
        e.npr = enc<Z_NamePlusRecord>(z_NamePlusRecord, npr->records[i]);
        if (npr->records[i]->which == Z_NamePlusRecord_databaseRecord)
        {
            Z_External *x = npr->records[i]->u.databaseRecord;
            char b[OID_STR_MAX];
            if (x->direct_reference) e.syntax = oid_oid_to_dotstring(x->direct_reference, b);
        }
        // the real one stops at 200,000 bytes; here the newest of each stays
        bool have = false;
        for (Entry &f : m_entries)
            if (f.pos == e.pos && f.comp == e.comp && f.syntax == e.syntax) { f = e; have = true; break; }
        if (!have) m_entries.push_back(e);
    }
}
int RecordCache::lookup(ODR o, Z_NamePlusRecordList **npr, int start, int num, Odr_oid *syntax, Z_RecordComposition *comp)
{
    if (!syntax || num <= 0 || num > 100000) return 0;
    char b[OID_STR_MAX];
    std::string sx = oid_oid_to_dotstring(syntax, b), c = enc<Z_RecordComposition>(z_RecordComposition, comp);
    std::vector<const Entry *> hit(num, (const Entry *) 0);
    for (const Entry &e : m_entries)
        if (e.pos >= start && e.pos < start + num && e.comp == c && e.syntax == sx)
            hit[e.pos - start] = &e;
    for (auto *h : hit) if (!h) return 0;
    *npr = (Z_NamePlusRecordList *) odr_malloc(o, sizeof(**npr));
    (*npr)->num_records = num;
    (*npr)->records = (Z_NamePlusRecord **) odr_malloc(o, num * sizeof(Z_NamePlusRecord *));
    for (int i = 0; i < num; i++)
    {
        ODR d = odr_createmem(ODR_DECODE);
        odr_setbuf(d, (char *) hit[i]->npr.data(), hit[i]->npr.size(), 0);
        Z_NamePlusRecord *p = 0;
        if (!z_NamePlusRecord(d, &p, 0, 0)) abort();
        NMEM n = odr_extract_mem(d);
        nmem_transfer(odr_getmem(o), n);
        nmem_destroy(n);
        odr_destroy(d);
        (*npr)->records[i] = p;
    }
    return 1;
}

void TimeStat::clean()
{
    time_t now = time(0);
    while (!m_l.empty() && m_l.front().first < now - m_period) m_l.pop_front();
}
void TimeStat::add_bytes(int sz)
{
    clean();
    m_l.push_back(std::make_pair(time(0), sz));
}
int TimeStat::get_total()
{
    clean();
    int t = 0;
    for (auto &p : m_l) t += p.second;
    return t;
}
void LimitConnect::add_connect(const char *p)
{
    auto it = m_peers.find(p);
    if (it == m_peers.end()) it = m_peers.insert(std::make_pair(std::string(p), TimeStat(m_period))).first;
    it->second.add_bytes(1);
}
int LimitConnect::get_total(const char *p)
{
    auto it = m_peers.find(p);
    return it == m_peers.end() ? 0 : it->second.get_total();
}
void LimitConnect::cleanup(bool all)
{
    for (auto it = m_peers.begin(); it != m_peers.end(); )
        if (all || it->second.get_total() == 0) it = m_peers.erase(it); else ++it;
}

Yaz_cql2rpn::Yaz_cql2rpn() : m_transform(0) {}
Yaz_cql2rpn::~Yaz_cql2rpn() { if (m_transform) cql_transform_close(m_transform); }
void Yaz_cql2rpn::set_pqf_file(const char *fname) { if (!m_transform) m_transform = cql_transform_open_fname(fname); }
bool Yaz_cql2rpn::parse_spec_file(const char *fname, int *error)
{
    *error = 0;
    if (m_transform) cql_transform_close(m_transform);
    m_transform = cql_transform_open_fname(fname);
    return m_transform ? true : false;
}
int Yaz_cql2rpn::query_transform(const char *cql_query, Z_RPNQuery **rpnquery, ODR o, char **addinfop)
{
    const char *addinfo = 0;
    if (!m_transform) return -3;
    CQL_parser cp = cql_parser_create();
    int r = cql_parser_string(cp, cql_query);
    if (r) { *addinfop = odr_strdup(o, "syntax error"); cql_parser_destroy(cp); return 10; }
    char rpn_buf[10240];
    r = cql_transform_buf(m_transform, cql_parser_result(cp), rpn_buf, sizeof rpn_buf - 1);
    if (r) { r = cql_transform_error(m_transform, &addinfo); if (addinfo) *addinfop = odr_strdup(o, addinfo); cql_parser_destroy(cp); return r; }
    YAZ_PQF_Parser pp = yaz_pqf_create();
    *rpnquery = yaz_pqf_parse(pp, o, rpn_buf);
    if (!*rpnquery)
    {
        size_t off; const char *msg; int code = yaz_pqf_error(pp, &msg, &off);
        (void) code;
        r = -1;
    }
    yaz_pqf_destroy(pp);
    cql_parser_destroy(cp);
    return r;
}
int Yaz_cql2rpn::rpn2cql_transform(Z_RPNQuery *q, WRBUF cql, ODR o, char **addinfop)
{
    const char *addinfo = 0;
    if (!m_transform) return -3;
    int r = cql_transform_rpn2cql_wrbuf(m_transform, cql, q);
    if (r) { r = cql_transform_error(m_transform, &addinfo); if (addinfo) *addinfop = odr_strdup(o, addinfo); }
    return r;
}
