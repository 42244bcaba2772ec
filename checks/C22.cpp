// SOURCES: kit filter_query_rewrite filter_cql_rpn
// Query translation: rewriting by stylesheet, conversion of character sets, CQL to RPN and back.
#include "../models/zkit.hpp"
#include <iconv.h>
#include <yaz/cql.h>
#include <fstream>
#include <libxml/xmlerror.h>
#include <libxslt/xsltutils.h>
ZK_FILTER(query_rewrite)
ZK_FILTER(cql_rpn)
using namespace pbt;
using zk::Server;
static void xml_quiet(void *, const char *, ...) {}
static const std::string &dir()
{
    static std::string d; static pid_t pid = 0; if (pid == getpid()) return d;
    pid = getpid(); d = pbt::scratch() + "/qr" + std::to_string(pid); (void) !system(("mkdir -p " + d).c_str());
    auto put = [](const std::string &n, const std::string &body) { std::ofstream(d + "/" + n) << "<?xml version=\"1.0\"?><xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\">" + body + "</xsl:stylesheet>"; };
    std::string id = "<xsl:template match=\"@*|node()\"><xsl:copy><xsl:apply-templates select=\"@*|node()\"/></xsl:copy></xsl:template>";
    put("ident.xsl", id);
    put("alias.xsl", id + "<xsl:template match=\"attr[@type='1' and @value='4']\"><attr type=\"1\" value=\"1016\"/></xsl:template>");
    put("or.xsl", id + "<xsl:template match=\"operator/@type[.='and']\"><xsl:attribute name=\"type\">or</xsl:attribute></xsl:template>");
    put("drop.xsl", id + "<xsl:template match=\"attr[@type='4']\"/>");
    put("wrap.xsl", id + "<xsl:template match=\"rpn\"><rpn set=\"{@set}\"><operator type=\"and\"><xsl:apply-templates select=\"*\"/><apt><attr type=\"1\" value=\"12\"/><term type=\"general\">lib1</term></apt></operator></rpn></xsl:template>");
    put("swap.xsl", id + "<xsl:template match=\"operator[@type='and' or @type='or']\"><operator type=\"{@type}\"><xsl:apply-templates select=\"*[2]\"/><xsl:apply-templates select=\"*[1]\"/></operator></xsl:template>");
    put("empty.xsl", "<xsl:template match=\"/\"/>"); put("foo.xsl", "<xsl:template match=\"/\"><foo/></xsl:template>"); put("noq.xsl", "<xsl:template match=\"/\"><query/></xsl:template>");
    put("half.xsl", "<xsl:template match=\"/\"><query><rpn set=\"Bib-1\"><operator type=\"and\"><apt><term type=\"general\">x</term></apt></operator></rpn></query></xsl:template>");
    put("badop.xsl", id + "<xsl:template match=\"rpn\"><rpn set=\"{@set}\"><operator type=\"{concat('b','ad')}\"><xsl:apply-templates select=\"*\"/></operator></rpn></xsl:template>");
    return d;
}
struct Q { std::string op, term, rset, set; std::vector<std::pair<int, std::string> > attrs; std::vector<Q> sub; };
static Q gen(Ctx &x, int depth, bool wild)
{
    Q q;
    if (depth > 0 && x.chance(2, 3)) { q.op = x.pick({"and", "or", "not", "and"}); q.sub.push_back(gen(x, depth - 1, wild)); q.sub.push_back(gen(x, depth - 1, wild)); return q; }
    if (x.chance(1, 8)) { q.rset = x.str1("abs12", 4); return q; }
    for (int n = x.range(0, 3); n > 0; n--) { int t = x.pick({1, 2, 4, 5, 1}); q.attrs.emplace_back(t, t == 1 && wild && x.chance(1, 4) ? x.pick({"dc.title", "author name", "t\xc3\xa6"}) : std::to_string(x.pick({4, 1016, 1003, 12, 3, 5, 102}))); }
    for (int n = x.range(1, 4); n > 0; n--) q.term += x.weighted({6, 2, 1, 1}) == 0 ? x.str1("abcxyz", 3) : x.pick({"\xc3\xa6", "\xc3\xb8", "\xe2\x82\xac", "\xd0\x96", " ", "<", "&", "'", "*", "\xf0\x9f\x98\x80"});
    return q;
}
static std::string quoted(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + "\""; }
static std::string pqf(const Q &q)
{
    if (!q.op.empty()) return "@" + q.op + " " + pqf(q.sub[0]) + " " + pqf(q.sub[1]);
    if (!q.rset.empty()) return "@set " + q.rset;
    std::string r; for (auto &a : q.attrs) r += "@attr " + quoted(std::to_string(a.first) + "=" + a.second) + " "; return r + quoted(q.term);
}
static void rewrite(Q &q, const std::string &how)
{
    for (auto &s : q.sub) rewrite(s, how);
    if (how == "alias.xsl") for (auto &a : q.attrs) { if (a.first == 1 && a.second == "4") a.second = "1016"; }
    if (how == "or.xsl" && q.op == "and") q.op = "or";
    if (how == "drop.xsl") { std::vector<std::pair<int, std::string> > k; for (auto &a : q.attrs) if (a.first != 4) k.push_back(a); q.attrs = k; }
    if (how == "swap.xsl" && (q.op == "and" || q.op == "or")) std::swap(q.sub[0], q.sub[1]);
}
static bool conv(std::string &s, const std::string &to, const std::string &from)
{
    iconv_t cd = iconv_open(to.c_str(), from.c_str()); if (cd == (iconv_t) -1) throw Fail("iconv"); std::string out(s.size() * 6 + 16, 0); char *ip = (char *) s.data(), *op = &out[0]; size_t il = s.size(), ol = out.size();
    size_t r = iconv(cd, &ip, &il, &op, &ol); iconv_close(cd); if (r == (size_t) -1 || r > 0) return false; out.resize(op - &out[0]); s = out; return true;
}
static bool conv_terms(Q &q, const std::string &to, const std::string &from) { bool ok = true; for (auto &s : q.sub) ok = conv_terms(s, to, from) && ok; if (q.sub.empty() && q.rset.empty()) ok = conv(q.term, to, from) && ok; return ok; }
// YAZ drops characters outside Latin-1 on its own
static void latin(Q &q) { for (auto &s : q.sub) latin(s); for (auto c : {"\xe2\x82\xac", "\xd0\x96", "\xf0\x9f\x98\x80"}) { size_t i; while ((i = q.term.find(c)) != std::string::npos) q.term.replace(i, strlen(c), "\xc3\xbc"); } }
struct World {
    std::unique_ptr<zk::Net> net; std::string raw; int calls = 0; std::function<void(zk::mp::Package &)> fn; Z_Query *seen = 0; zk::Mem keep; std::string seen_text;
    World(const std::string &type, const std::string &conf) {
        net.reset(new zk::Net({&metaproxy_1_filter_query_rewrite, &metaproxy_1_filter_cql_rpn}, zk::route("start", "<filter type=\"" + type + "\">" + conf + "</filter>" + zk::hook("b"))));
        zk::hooks().fn = [this](const zk::Hook *, zk::mp::Package &p) {
            Z_GDU *g = p.request().get(); if (p.session().is_closed() || !g) return; calls++; raw = zk::encode(g); Z_APDU *q = g->u.z3950; zk::Mem r;
            if (q->which == Z_APDU_searchRequest) { seen_text = zk::query_text(q->u.searchRequest->query); Z_APDU *z = zk::search_reply(r, q, 0, 0); *z->u.searchResponse->resultCount = 17; p.response() = z; } else p.response() = zk::reply(r, zk::response_type(q->which), q);
        };
    }
    ~World() { zk::hooks().fn = nullptr; }
};
static std::string enc(Z_APDU *a) { yazpp_1::GDU g(a); return zk::encode(g.get()); }
static Z_Query *cql(ODR o, const std::string &s)
{
    Z_Query *q = (Z_Query *) odr_malloc(o, sizeof *q); q->which = Z_Query_type_104; Z_External *e = q->u.type_104 = (Z_External *) odr_malloc(o, sizeof *e); memset(e, 0, sizeof *e);
    e->direct_reference = odr_oiddup(o, yaz_oid_userinfo_cql); e->which = Z_External_CQL; e->u.cql = odr_strdup(o, s.c_str()); return q;
}
static Z_APDU *search_with(Ctx &x, ODR o, const std::string &ref, Z_Query *q)
{
    zk::Search s; s.ref = ref; s.dbs = {x.str1("ab", 3), "x"}; s.ssub = x.range(0, 3); s.lslb = x.range(1, 4); s.mspn = x.range(0, 3); s.syn = x.pick({"", "xml"}); s.esn_s = x.pick({"", "F"}); s.set = x.pick({"default", "s1"}); Z_APDU *a = zk::search(o, s); if (q) a->u.searchRequest->query = q; return a;
}
// the answer to a search, and what the server saw; want_diag: first a code, then optionally more
static void expect(Ctx &x, World &w, zk::Client &c, Z_APDU *a, const std::string &ref, Z_Query *want, const std::string &diag)
{
    std::string before = enc(a), wtext; if (want) wtext = zk::query_text(want);
    yazpp_1::GDU copy(a); w.calls = 0; w.raw = ""; Z_GDU *g = c.send(a); Z_SearchResponse *r = zk::search_of(g); x.check(r, "answer " + zk::print(g)); x.eq(zk::get_ref(g->u.z3950), ref, "reference id");
    if (!want) { x.eq(w.calls, 0, "searches at the server"); std::string d = zk::recs(r->records).diag; x.eq(d.substr(0, d.find(':')), diag, "diagnostic " + d); x.check(!*r->searchStatus && !*r->resultCount, "status of a failed search"); x.label("diag " + diag); return; }
    x.check(w.calls == 1, "searches at the server: " + std::to_string(w.calls) + " " + zk::recs(r->records).diag); x.eq(w.seen_text, wtext, "query at the server"); x.eq((long) *r->resultCount, 17l, "hits");
    copy.get()->u.z3950->u.searchRequest->query = want; x.check(w.raw == zk::encode(copy.get()), "the server saw another request"); x.label("passed");
}
static void stylesheets(Ctx &x)
{
    xmlSetGenericErrorFunc(0, xml_quiet); xsltSetGenericErrorFunc(0, xml_quiet);
    std::string sheet = x.chance(1, 5) ? "" : x.pick({"ident.xsl", "alias.xsl", "or.xsl", "drop.xsl", "wrap.xsl", "swap.xsl", "empty.xsl", "foo.xsl", "noq.xsl", "half.xsl", "badop.xsl"}), to = x.chance(1, 2) ? x.pick({"iso-8859-1", "utf-16be", "iso-8859-5", "utf-8"}) : std::string(), from = !to.empty() && x.chance(1, 4) ? "utf-8" : "";
    std::string conf; if (!sheet.empty()) conf = "<xslt stylesheet=\"" + dir() + "/" + sheet + "\"/>"; if (!to.empty()) conf += "<charset" + (from.empty() ? "" : " from=\"" + from + "\"") + " to=\"" + to + "\"/>";
    World w("query_rewrite", conf); zk::Client c(*w.net); zk::Mem o; c.send(zk::init(o)); x.desc << sheet << " " << to << " ";
    bool bad = sheet == "empty.xsl" || sheet == "foo.xsl" || sheet == "noq.xsl" || sheet == "half.xsl" || sheet == "badop.xsl";
    for (int n = x.range(1, 4); n > 0; n--) {
        Q q = gen(x, 3, true); if (to == "iso-8859-1") latin(q); std::string ref = x.str("ab\1", 4), text = pqf(q); x.desc << text << "; "; Z_Query *zq = zk::pqf(o, text); bool t101 = x.chance(1, 8); Z_APDU *a = search_with(x, o, ref, zq);
        if (t101) { zq->which = Z_Query_type_101; }
        if (!sheet.empty()) x.nontrivial = true;
        if (bad) {
            w.calls = 0; Z_SearchResponse *r = zk::search_of(c.send(a)); x.check(r, "no search response"); x.eq(w.calls, 0, "searches at the server with a query that " + sheet + " made"); x.check(!zk::recs(r->records).diag.empty(), "no diagnostic"); x.label("bad"); continue;
        }
        rewrite(q, sheet); if (sheet == "wrap.xsl") { Q t, l; t.op = "and"; l.term = "lib1"; l.attrs.emplace_back(1, "12"); t.sub = {q, l}; q = t; }
        Q plain = q; bool ok = to.empty() || conv_terms(q, to, "utf-8"); if (!ok) { x.nontrivial = true; expect(x, w, c, a, ref, 0, "108"); continue; }
        // terms of any bytes: by hand
        Z_Query *want = zk::pqf(o, pqf(plain)); if (t101 && sheet.empty()) want->which = Z_Query_type_101;
        std::function<void(Z_RPNStructure *, const Q &)> put = [&](Z_RPNStructure *s, const Q &k) {
            if (s->which == Z_RPNStructure_complex) { put(s->u.complex->s1, k.sub[0]); put(s->u.complex->s2, k.sub[1]); }
            else if (s->u.simple->which == Z_Operand_APT) s->u.simple->u.attributesPlusTerm->term->u.general = odr_create_Odr_oct(o, k.term.data(), (int) k.term.size());
        };
        put(want->u.type_1->RPNStructure, q); if (!to.empty()) x.nontrivial = true;
        expect(x, w, c, a, ref, want, "");
    }
}
// requests that carry no RPN query
static void others(Ctx &x)
{
    xmlSetGenericErrorFunc(0, xml_quiet); bool qr = x.coin(); std::string map = dir() + "/cql.txt"; if (!qr) std::ofstream(map) << "set = info:srw/cql-context-set/1/cql-v1.1\nindex.cql.serverChoice = 1=1016\nrelation.scr = 2=3\n";
    World w(qr ? "query_rewrite" : "cql_rpn", qr ? "<xslt stylesheet=\"" + dir() + "/alias.xsl\"/><charset to=\"iso-8859-1\"/>" : "<conversion file=\"" + map + "\"" + (x.coin() ? " reverse=\"1\"" : "") + "/>");
    zk::Client c(*w.net); zk::Mem o; x.nontrivial = true; c.send(zk::init(o));
    for (int n = x.range(1, 5); n > 0; n--) {
        std::string ref = x.str("ab", 3); Z_APDU *a; zk::Scan sc; sc.ref = ref; sc.term = x.str1("ab\xc3\xa6", 4); zk::Present p; p.ref = ref; p.esn = x.pick({"", "F"});
        switch (x.range(0, 4)) {
        case 0: a = zk::scan(o, sc); break; case 1: a = zk::present(o, p); break; case 2: a = zget_APDU(o, Z_APDU_deleteResultSetRequest); zk::set_ref(o, a, ref); break;
        default: { Z_Query *q = (Z_Query *) odr_malloc(o, sizeof *q); q->which = Z_Query_type_2; std::string t = x.str("ab \xff=", 6); q->u.type_2 = odr_create_Odr_oct(o, t.data(), (int) t.size()); a = search_with(x, o, ref, q); } }
        if (qr && a->which == Z_APDU_searchRequest) { a = zk::scan(o, sc); }
        std::string want = enc(a); x.desc << zk::name(a->which) << " "; Z_GDU *g = c.send(a); x.check(w.raw == want, std::string("request changed: ") + zk::name(a->which)); x.check(g && g->which == Z_GDU_Z3950 && g->u.z3950->which == zk::response_type(a->which), "answer"); x.eq(zk::get_ref(g->u.z3950), ref, "reference id");
    }
}
// CQL: a generated query and what it means by the mapping
static const char *MAP = "set = info:srw/cql-context-set/1/cql-v1.1\nset.cql = info:srw/cql-context-set/1/cql-v1.1\nset.dc = info:srw/cql-context-set/1/dc-v1.1\n"
    "index.cql.serverChoice = 1=1016\nindex.dc.title = 1=4\nindex.dc.creator = 1=1003\nindex.dc.date = 1=30 4=4\n"
    "relation.< = 2=1\nrelation.le = 2=2\nrelation.eq = 2=3\nrelation.exact = 2=3\nrelation.ge = 2=4\nrelation.> = 2=5\nrelation.<> = 2=6\nrelation.scr = 2=3\n"
    "position.any = 3=3\nstructure.* = 4=1\n";
struct C { std::string op, index, rel, term; std::vector<C> sub; bool paren = false; };
static C cgen(Ctx &x, int depth)
{
    C c; if (depth > 0 && x.chance(3, 5)) { c.op = x.pick({"and", "or", "not"}); c.sub.push_back(cgen(x, depth - 1)); c.sub.push_back(cgen(x, depth - 1)); c.paren = x.chance(1, 3); return c; }
    if (x.chance(2, 3)) { c.index = x.pick({"dc.title", "dc.creator", "dc.date", "cql.serverChoice"}); c.rel = x.pick({"=", "=", "<", "<=", ">", ">=", "<>", "=="}); }
    c.term = x.str1("abcxyz012", 5); if (x.chance(1, 4)) c.term = x.pick({"and", "or", "not", "prox", "sortby"}) + (x.coin() ? "x" : ""); if (x.chance(1, 3)) c.term += " " + x.str1("abc()=<>/", 4); return c;
}
static std::string ctext(Ctx &x, const C &c, bool right)
{
    if (!c.op.empty()) { std::string t = ctext(x, c.sub[0], false) + " " + c.op + " " + ctext(x, c.sub[1], true); return right || c.paren ? "(" + t + ")" : t; }
    std::string t = c.term; bool plain = t.find_first_not_of("abcdefghijklmnopqrstuvwxyz0123456789") == std::string::npos && t != "and" && t != "or" && t != "not" && t != "prox" && t != "sortby"; if (!plain || x.chance(1, 4)) t = "\"" + t + "\"";
    std::string sp = x.coin() ? " " : ""; return c.index.empty() ? t : c.index + sp + c.rel + sp + t;
}
static std::string cpqf(const C &c)
{
    if (!c.op.empty()) return "@" + c.op + " " + cpqf(c.sub[0]) + " " + cpqf(c.sub[1]);
    std::string i = c.index.empty() || c.index == "cql.serverChoice" ? "1=1016" : c.index == "dc.title" ? "1=4" : c.index == "dc.creator" ? "1=1003" : "1=30", r = c.rel.empty() || c.rel == "=" || c.rel == "==" ? "3" : c.rel == "<" ? "1" : c.rel == "<=" ? "2" : c.rel == ">" ? "5" : c.rel == ">=" ? "4" : "6";
    return i + "|2=" + r + "|" + c.term;
}
// attributes of each term that matter, in order
static std::string zpqf(Z_RPNStructure *s)
{
    if (s->which == Z_RPNStructure_complex) { int k = s->u.complex->roperator->which; return std::string("@") + (k == Z_Operator_and ? "and" : k == Z_Operator_or ? "or" : k == Z_Operator_and_not ? "not" : "prox") + " " + zpqf(s->u.complex->s1) + " " + zpqf(s->u.complex->s2); }
    if (s->u.simple->which != Z_Operand_APT) return "@set"; Z_AttributesPlusTerm *t = s->u.simple->u.attributesPlusTerm; std::string use, rel;
    for (int i = 0; i < t->attributes->num_attributes; i++) { Z_AttributeElement *e = t->attributes->attributes[i]; if (e->which == Z_AttributeValue_numeric) { long v = (long) *e->value.numeric; if (*e->attributeType == 1) use += "1=" + std::to_string(v); if (*e->attributeType == 2) rel += "2=" + std::to_string(v); } }
    return use + "|" + rel + "|" + (t->term->which == Z_Term_general ? std::string((const char *) t->term->u.general->buf, t->term->u.general->len) : "?");
}
static void cql_forward(Ctx &x)
{
    std::string map = dir() + "/map.txt"; std::ofstream(map) << MAP; std::string got; std::function<void(const zk::Hook *, zk::mp::Package &)> inner; World w("cql_rpn", "<conversion file=\"" + map + "\"/>"); zk::Client c(*w.net); zk::Mem o; c.send(zk::init(o));
    inner = zk::hooks().fn; zk::hooks().fn = [&](const zk::Hook *h, zk::mp::Package &p) { Z_GDU *g = p.request().get(); if (g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_searchRequest) { Z_Query *q = g->u.z3950->u.searchRequest->query; got = q->which == Z_Query_type_1 ? zpqf(q->u.type_1->RPNStructure) : "type " + std::to_string(q->which); } inner(h, p); };
    for (int n = x.range(1, 4); n > 0; n--) {
        C q = cgen(x, 3); std::string text = ctext(x, q, false), ref = x.str("ab", 3); int bad = x.chance(1, 4) ? x.range(1, 4) : 0; x.nontrivial = true;
        if (bad == 1) text += " and"; else if (bad == 2) text = "(" + text; else if (bad == 3) text = "nosuch.index = a and " + text; else if (bad == 4) text = text + " or dc.nothing = a";
        x.desc << text << "; "; Z_APDU *a = search_with(x, o, ref, cql(o, text)); got = ""; std::string before = enc(a); w.calls = 0; Z_GDU *g = c.send(a); Z_SearchResponse *r = zk::search_of(g); x.check(r, "no search response"); x.eq(zk::get_ref(g->u.z3950), ref, "reference id");
        std::string d = zk::recs(r->records).diag;
        if (bad) { x.eq(w.calls, 0, "searches at the server for " + text); x.eq(d.substr(0, d.find(':')), std::string(bad <= 2 ? "108" : bad == 3 ? "121" : "114"), "diagnostic " + d + " for " + text); x.label("diag"); continue; }
        x.check(w.calls == 1, "query " + text + " refused: " + d); x.eq(got, cpqf(q), "query at the server for " + text); x.eq((long) *r->resultCount, 17l, "hits");
        // the rest of the request
        Z_Query *k = cql(o, text); yazpp_1::GDU wa(a); (void) k; ODR dec = odr_createmem(ODR_DECODE); Z_GDU *sg = 0; odr_setbuf(dec, (char *) w.raw.data(), (int) w.raw.size(), 0); x.check(z_GDU(dec, &sg, 0, 0), "request does not decode"); sg->u.z3950->u.searchRequest->query = wa.get()->u.z3950->u.searchRequest->query; std::string back = zk::encode(sg); odr_destroy(dec); x.check(back == before, "the rest of the request changed");
    }
}
// RPN to CQL and back means the same
static void cql_reverse(Ctx &x)
{
    std::string map = dir() + "/map.txt"; std::ofstream(map) << MAP; std::string cqltext; int which = 0; std::function<void(const zk::Hook *, zk::mp::Package &)> inner; World w("cql_rpn", "<conversion file=\"" + map + "\" reverse=\"1\"/>"); zk::Client c(*w.net); zk::Mem o; c.send(zk::init(o));
    inner = zk::hooks().fn; zk::hooks().fn = [&](const zk::Hook *h, zk::mp::Package &p) { Z_GDU *g = p.request().get(); if (g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_searchRequest) { Z_Query *q = g->u.z3950->u.searchRequest->query; which = q->which; cqltext = q->which == Z_Query_type_104 && q->u.type_104->which == Z_External_CQL ? q->u.type_104->u.cql : ""; } inner(h, p); };
    std::function<std::string(const C &)> full = [&](const C &k) { if (!k.op.empty()) return "@" + k.op + " " + full(k.sub[0]) + " " + full(k.sub[1]); std::string t = cpqf(k), u = t.substr(0, t.find('|')), r = t.substr(t.find('|') + 1); r = r.substr(0, r.find('|')); return "@attr " + u + (u == "1=30" ? " @attr 4=4" : "") + " @attr " + r + " " + quoted(k.term); };
    for (int n = x.range(1, 3); n > 0; n--) {
        C q = cgen(x, 2); std::string text = full(q), ref = x.str("ab", 3); bool bad = x.chance(1, 5), t101 = false; if (bad) text = x.coin() ? "@and @attr 1=9999 a " + text : "@or " + text + " @attr 1=999 a"; x.desc << text << "; "; x.nontrivial = true;
        Z_Query *zq = zk::pqf(o, text); (void) t101; Z_APDU *a = search_with(x, o, ref, zq); w.calls = 0; Z_GDU *g = c.send(a); Z_SearchResponse *r = zk::search_of(g); x.check(r, "no search response"); x.eq(zk::get_ref(g->u.z3950), ref, "reference id"); std::string d = zk::recs(r->records).diag;
        if (bad) { x.eq(w.calls, 0, "searches at the server"); x.check(!d.empty(), "no diagnostic"); x.label("diag"); continue; }
        x.check(w.calls == 1, "query " + text + " refused: " + d); x.eq(which, (int) Z_Query_type_104, "type of the query at the server");
        cql_transform_t ct = cql_transform_open_fname(map.c_str()); CQL_parser cp = cql_parser_create(); std::string back = "unparsable"; zk::Mem o2;
        if (!cql_parser_string(cp, cqltext.c_str())) { WRBUF b = wrbuf_alloc(); if (!cql_transform(ct, cql_parser_result(cp), wrbuf_vp_puts, b)) { Z_Query *z = zk::pqf(o2, wrbuf_cstr(b)); back = zpqf(z->u.type_1->RPNStructure); } else back = "untranslatable"; wrbuf_destroy(b); }
        cql_parser_destroy(cp); cql_transform_close(ct); x.eq(back, cpqf(q), "meaning of the CQL query " + cqltext);
    }
}
static void config(Ctx &x)
{
    xmlSetGenericErrorFunc(0, xml_quiet); xsltSetGenericErrorFunc(0, xml_quiet); x.nontrivial = true; std::ofstream(dir() + "/c.txt") << MAP; std::ofstream(dir() + "/notxsl.xsl") << "<a>"; bool threw = false;
    std::string s = "<xslt stylesheet=\"" + dir() + "/ident.xsl\"/>";
    std::vector<std::tuple<std::string, std::string, bool> > v = {{"query_rewrite", "", true}, {"query_rewrite", s, true}, {"query_rewrite", s + s, false}, {"query_rewrite", "<xslt stylesheet=\"/nonexistent.xsl\"/>", false}, {"query_rewrite", "<xslt stylesheet=\"" + dir() + "/notxsl.xsl\"/>", false}, {"query_rewrite", "<xslt/>", false}, {"query_rewrite", "<charset too=\"x\"/>", false}, {"query_rewrite", "<x/>", false}, {"query_rewrite", "<xslt sheet=\"a\"/>", false},
        {"cql_rpn", "", false}, {"cql_rpn", "<conversion file=\"" + dir() + "/c.txt\"/>", true}, {"cql_rpn", "<conversion file=\"/nonexistent\"/>", false}, {"cql_rpn", "<conversion fil=\"x\"/>", false}, {"cql_rpn", "<conv file=\"" + dir() + "/c.txt\"/>", false}, {"cql_rpn", "<conversion/>", false}};
    auto &k = x.pick(v); x.desc << std::get<0>(k) << " " << std::get<1>(k); try { World w(std::get<0>(k), std::get<1>(k)); } catch (zk::mp::filter::FilterException &) { threw = true; } catch (zk::mp::XMLError &) { threw = true; }
    x.eq(!threw, std::get<2>(k), "configuration accepted: " + std::get<1>(k));
}
int main(int argc, char **argv)
{
    zk::quiet();
    Check c; c.id = "C22";
    c.add("stylesheets", 6000, 150000, "a query is rewritten or converted", stylesheets)
     .add("cql", 5000, 150000, "all", cql_forward)
     .add("reverse", 3000, 100000, "all", cql_reverse)
     .add("others", 400, 10000, "all", others)
     .add("config", 60, 300, "all", config);
    return run(c, argc, argv);
}
