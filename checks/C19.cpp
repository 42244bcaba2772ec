// SOURCES: kit filter_sru_to_z3950 sru_util
// VARIANTS: asan
// SRU requests answered through a Z39.50 server: request translation, record retrieval, diagnostics, explain.
#include "../models/zkit.hpp"
#include <libxml/parser.h>
#include <libxml/tree.h>
ZK_FILTER(sru_z3950)
using namespace pbt; using namespace zk;
// ---- an SRU answer, read without YAZ
struct Rec { std::string data, packing, schema, pos, diag; };
struct Ans { int code = 0; std::string op, version, hits, next, sheet, log, err; std::vector<Rec> recs; std::vector<std::string> diags; };
static std::string inner(xmlNode *n)
{
    std::string r; xmlBufferPtr b = xmlBufferCreate();
    for (xmlNode *c = n->children; c; c = c->next) {
        if (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) r += (const char *) c->content;
        else { xmlBufferEmpty(b); xmlNodeDump(b, n->doc, c, 0, 0); r += (const char *) xmlBufferContent(b); }
    }
    xmlBufferFree(b); return r;
}
static std::string text(xmlNode *n) { xmlChar *t = xmlNodeGetContent(n); std::string r = (const char *) t; xmlFree(t); return r; }
static bool is(xmlNode *n, const char *s) { return n->type == XML_ELEMENT_NODE && !strcmp((const char *) n->name, s); }
static std::string diag(xmlNode *d)
{
    std::string uri, det; for (xmlNode *c = d->children; c; c = c->next) { if (is(c, "uri")) uri = text(c); if (is(c, "details")) det = text(c); }
    auto p = uri.rfind('/'); std::string r = p == std::string::npos ? uri : uri.substr(p + 1); if (uri.compare(0, 20, "info:srw/diagnostic/")) r = "?" + uri;
    return det.empty() ? r : r + ":" + det;
}
static void rec(xmlNode *n, Ans &a)
{
    Rec r; for (xmlNode *c = n->children; c; c = c->next) {
        if (is(c, "recordSchema")) r.schema = text(c);
        if (is(c, "recordPacking") || is(c, "recordXMLEscaping")) r.packing = text(c);
        if (is(c, "recordPosition")) r.pos = text(c);
        if (is(c, "recordData")) { r.data = inner(c); for (xmlNode *d = c->children; d; d = d->next) if (is(d, "diagnostic")) r.diag = diag(d); }
    }
    if (r.diag.empty() && r.data.compare(0, 11, "<diagnostic") == 0) { xmlDocPtr d = xmlReadMemory(r.data.data(), (int) r.data.size(), 0, 0, XML_PARSE_NOERROR | XML_PARSE_NOWARNING); if (d) { r.diag = diag(xmlDocGetRootElement(d)); xmlFreeDoc(d); } }
    a.recs.push_back(r);
}
static Ans parse(Z_GDU *g)
{
    Ans a; if (!g || g->which != Z_GDU_HTTP_Response) { a.err = "not an HTTP response"; return a; }
    Z_HTTP_Response *h = g->u.HTTP_Response; a.code = h->code; if (a.code != 200) return a;
    xmlDocPtr d = xmlReadMemory(h->content_buf, h->content_len, 0, 0, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NOCDATA);
    if (!d) { a.err = "not XML: " + std::string(h->content_buf, h->content_len); return a; }
    for (xmlNode *c = d->children; c; c = c->next) if (c->type == XML_PI_NODE && !strcmp((const char *) c->name, "xml-stylesheet")) a.sheet = (const char *) c->content;
    xmlNode *n = xmlDocGetRootElement(d);
    if (is(n, "Envelope")) { xmlNode *b = n->children; while (b && !is(b, "Body")) b = b->next; n = b ? b->children : 0; while (n && n->type != XML_ELEMENT_NODE) n = n->next; }
    if (n) {
        a.op = (const char *) n->name;
        for (xmlNode *c = n->children; c; c = c->next) {
            if (is(c, "version")) a.version = text(c);
            if (is(c, "numberOfRecords")) a.hits = text(c);
            if (is(c, "nextRecordPosition")) a.next = text(c);
            if (is(c, "records")) for (xmlNode *k = c->children; k; k = k->next) if (is(k, "record")) rec(k, a);
            if (is(c, "record")) rec(c, a);
            if (is(c, "diagnostics")) for (xmlNode *k = c->children; k; k = k->next) if (is(k, "diagnostic")) a.diags.push_back(diag(k));
            if (is(c, "extraResponseData")) a.log = text(c);
        }
    }
    xmlFreeDoc(d); return a;
}
// ---- the request
static std::string uri(const std::string &s) { std::string r; char b[4]; for (unsigned char c : s) { if (isalnum(c) || strchr("-_.~", c)) r += (char) c; else { snprintf(b, sizeof b, "%%%02x", c); r += b; } } return r; }
struct Req {
    int how = 0;                         // 0 GET, 1 POST, 2 SOAP
    std::string op = "searchRetrieve", version = "1.1", db, host = "h.org:8080";
    bool has_q = true; std::string q = "x", qtype = "cql"; bool has_start = false, has_max = false; int start = 1, max = 0;
    bool has_schema = false; std::string schema, packing, xpath, sort, sheet; bool has_sheet = false;
    std::string user, pass; bool basic = false; std::string xff, target; std::vector<std::pair<std::string, std::string> > cl; std::string sockets, sesid, log;
    std::vector<std::pair<std::string, std::string> > args() const {
        std::vector<std::pair<std::string, std::string> > v; auto add = [&](const char *n, const std::string &s) { v.emplace_back(n, s); };
        add("version", version); if (version != "2.0" || op == "explain") add("operation", op);
        if (op == "searchRetrieve") {
            if (has_q) { add(qtype == "pqf" && version != "2.0" ? "x-pquery" : "query", q); if (qtype == "ccl" || qtype == "zork" || (qtype == "pqf" && version == "2.0")) add("queryType", qtype); }
            if (has_start) add("startRecord", std::to_string(start)); if (has_max) add("maximumRecords", std::to_string(max));
            if (has_schema) add("recordSchema", schema); if (!xpath.empty()) add("recordXPath", xpath); if (!sort.empty()) add("sortKeys", sort);
        }
        if (!packing.empty()) add(version == "2.0" ? "recordXMLEscaping" : "recordPacking", packing);
        if (op == "scan") add("scanClause", "x");
        if (has_sheet) add("stylesheet", sheet);
        if (!basic && !user.empty()) { add("x-username", user); if (!pass.empty()) add("x-password", pass); }
        if (!target.empty()) add("x-target", target);
        for (auto &c : cl) add(("x-client-" + c.first).c_str(), c.second);
        if (!sockets.empty()) add("x-max-sockets", sockets); if (!sesid.empty()) add("x-session-id", sesid); if (!log.empty()) add("x-log-enable", log);
        return v;
    }
    Z_GDU *make(ODR o) const {
        std::string path = "/" + db, body; if (how < 2) for (auto &a : args()) body += (body.empty() ? "" : "&") + uri(a.first) + "=" + uri(a.second);
        if (how == 0) path += "?" + body;
        Z_GDU *g = z_get_HTTP_Request(o); Z_HTTP_Request *h = g->u.HTTP_Request; h->method = odr_strdup(o, how == 0 ? "GET" : "POST"); h->path = odr_strdup(o, path.c_str()); h->version = (char *) "1.1";
        if (!host.empty()) z_HTTP_header_add(o, &h->headers, "Host", host.c_str());
        if (how == 1) { z_HTTP_header_add(o, &h->headers, "Content-Type", "application/x-www-form-urlencoded"); h->content_buf = odr_strdup(o, body.c_str()); h->content_len = (int) body.size(); }
        if (how == 2) {
            bool ex = op == "explain"; Z_SRW_PDU *p = yaz_srw_get_pdu(o, ex ? Z_SRW_explain_request : op == "scan" ? Z_SRW_scan_request : Z_SRW_searchRetrieve_request, version.c_str());
            if (op == "searchRetrieve") {
                Z_SRW_searchRetrieveRequest *r = p->u.request; r->query = has_q ? odr_strdup(o, q.c_str()) : 0; r->queryType = odr_strdup(o, qtype.c_str()); r->database = odr_strdup(o, db.c_str());
                if (has_start) r->startRecord = odr_intdup(o, start); if (has_max) r->maximumRecords = odr_intdup(o, max); if (has_schema) r->recordSchema = odr_strdup(o, schema.c_str());
                if (!packing.empty()) r->recordPacking = odr_strdup(o, packing.c_str()); if (!xpath.empty()) r->recordXPath = odr_strdup(o, xpath.c_str());
                if (!sort.empty()) { r->sort_type = Z_SRW_sort_type_sort; r->sort.sortKeys = odr_strdup(o, sort.c_str()); }
            } else if (op == "scan") { p->u.scan_request->scanClause = odr_strdup(o, "x"); }
            if (yaz_sru_soap_encode(h, p, o, 0)) throw Fail("generator: SOAP");
            h->path = odr_strdup(o, path.c_str());
        }
        if (basic && !user.empty()) z_HTTP_header_add_basic_auth(o, &h->headers, user.c_str(), pass.c_str());
        if (!xff.empty()) z_HTTP_header_add(o, &h->headers, "X-Forwarded-For", xff.c_str());
        return g;
    }
};
// ---- the Z39.50 server behind
struct Back {
    long hits = 0; bool status = true; std::string initf, searchf; std::vector<int> kinds;      // kind of record i (from 1)
    std::vector<std::string> plan;      // per present: number of records, or a fault
    int init = 0, search = 0, present = 0, closes = 0; bool open = false; std::vector<std::string> errors;
    std::string auth, dbs, query, ip, esn, proxy; int maxsock = 0; std::string sesid; long at = 0;
    std::vector<std::pair<long, long> > asked; bool logs = false;
};
static Back B;
static std::string body_of(long pos) { return "<r n=\"" + std::to_string(pos) + "\">&lt;t&amp;" + std::to_string(pos * 7) + "</r>"; }
static Z_NamePlusRecord *sur(ODR o, int code, const char *add) { Z_NamePlusRecord *n = (Z_NamePlusRecord *) odr_malloc(o, sizeof *n); n->databaseName = 0; n->which = Z_NamePlusRecord_surrogateDiagnostic; n->u.surrogateDiagnostic = zget_DiagRec(o, code, add); return n; }
static Z_NamePlusRecord *make_rec(ODR o, long pos)
{
    int k = pos >= 1 && pos <= (long) B.kinds.size() ? B.kinds[pos - 1] : 0; std::string b = body_of(pos);
    switch (k) {
    case 0: return record(o, "d", yaz_oid_recsyn_xml, b);
    case 1: return sur(o, YAZ_BIB1_SYSTEM_ERROR_IN_PRESENTING_RECORDS, "sd");
    case 2: return record(o, "d", yaz_oid_recsyn_usmarc, "00000");
    case 3: { Z_NamePlusRecord *n = sur(o, 1, 0); Z_DiagRec *d = n->u.surrogateDiagnostic; d->which = Z_DiagRec_externallyDefined; d->u.externallyDefined = z_ext_record_oid(o, yaz_oid_recsyn_xml, "x", 1); return n; }
    case 4: return record(o, "d", yaz_oid_recsyn_sutrs, "text");
    case 5: { Z_NamePlusRecord *n = record(o, "d", yaz_oid_recsyn_xml, b); n->u.databaseRecord->direct_reference = 0; return n; }
    case 6: { Z_NamePlusRecord *n = record(o, "d", yaz_oid_recsyn_xml, "t"); Z_External *e = n->u.databaseRecord; e->which = Z_External_arbitrary; e->u.arbitrary = (Odr_bitmask *) odr_malloc(o, sizeof(Odr_bitmask)); ODR_MASK_ZERO(e->u.arbitrary); ODR_MASK_SET(e->u.arbitrary, 3); return n; }
    default: { Z_NamePlusRecord *n = sur(o, YAZ_BIB1_SYSTEM_ERROR_IN_PRESENTING_RECORDS, ""); return n; }
    }
}
static Z_Records *multi(ODR o)
{
    Z_Records *r = (Z_Records *) odr_malloc(o, sizeof *r); r->which = Z_Records_multipleNSD; Z_DiagRecs *d = r->u.multipleNonSurDiagnostics = (Z_DiagRecs *) odr_malloc(o, sizeof(Z_DiagRecs));
    d->num_diagRecs = 2; d->diagRecs = (Z_DiagRec **) odr_malloc(o, 2 * sizeof(Z_DiagRec *)); d->diagRecs[0] = zget_DiagRec(o, YAZ_BIB1_UNSUPP_USE_ATTRIBUTE, "m1"); d->diagRecs[1] = zget_DiagRec(o, YAZ_BIB1_UNSUPP_RELATION_ATTRIBUTE, "m2"); return r;
}
static void serve(const Hook *, mp::Package &p)
{
    Z_GDU *g = p.request().get();
    if (p.session().is_closed()) { B.closes++; B.open = false; return; }
    if (!g || g->which != Z_GDU_Z3950) { B.errors.push_back("not a Z39.50 request"); return; }
    Z_APDU *a = g->u.z3950; Mem o; if (B.logs) p.log("back", YLOG_LOG, "saw <%s>", name(a->which));
    if (a->which != Z_APDU_initRequest && !B.open) { B.errors.push_back(std::string(name(a->which)) + " without init"); return; }
    switch (a->which) {
    case Z_APDU_initRequest: {
        B.init++; if (B.open) B.errors.push_back("second init"); Z_InitRequest *r = a->u.initRequest; B.open = true;
        B.auth = auth_text(r->idAuthentication); auto v = vhosts_of(r->otherInfo); B.proxy = Server::join(v); const char *ip = yaz_oi_get_string_oid(&r->otherInfo, yaz_oid_userinfo_client_ip, 1, 0); B.ip = ip ? ip : "";
        { mp::Origin og = p.origin(); B.maxsock = og.get_max_sockets(); std::ostringstream os; os << og; B.sesid = os.str(); }
        if (!ODR_MASK_GET(r->options, Z_Options_search) || !ODR_MASK_GET(r->options, Z_Options_present)) B.errors.push_back("init without search and present");
        if (B.initf == "none") return;
        if (B.initf == "close") { p.session().close(); p.response() = close_reply(o, a, Z_Close_systemProblem, 0); return; }
        if (B.initf == "search") { p.response() = search_reply(o, a, 0, 0); return; }
        Z_APDU *ra = init_reply(o, a, B.initf.compare(0, 5, "diag:") ? 0 : atoi(B.initf.c_str() + 5), "ini"); if (B.initf == "refuse") *ra->u.initResponse->result = 0;
        p.response() = ra; break; }
    case Z_APDU_searchRequest: {
        B.search++; Z_SearchRequest *r = a->u.searchRequest; B.dbs = ""; for (int i = 0; i < r->num_databaseNames; i++) B.dbs += (i ? "|" : "") + std::string(r->databaseNames[i]); B.query = query_text(r->query);
        if (*r->smallSetUpperBound || *r->largeSetLowerBound != 1) B.errors.push_back("search asks for records");
        if (B.searchf == "none") return;
        if (B.searchf == "close") { p.session().close(); p.response() = close_reply(o, a, Z_Close_systemProblem, 0); return; }
        if (B.searchf == "present") { p.response() = present_reply(o, a, 0, 0); return; }
        int code = B.searchf.compare(0, 5, "diag:") ? 0 : atoi(B.searchf.c_str() + 5); Z_APDU *ra = search_reply(o, a, code, "sea"); *ra->u.searchResponse->resultCount = B.hits; if (!code) *ra->u.searchResponse->searchStatus = 1;
        if (B.searchf == "noadd") { ra->u.searchResponse->records = diag_records(o, 114, ""); }
        if (B.searchf == "multi") { ra->u.searchResponse->records = multi(o); *ra->u.searchResponse->searchStatus = 0; *ra->u.searchResponse->resultCount = 0; }
        p.response() = ra; break; }
    case Z_APDU_presentRequest: {
        Z_PresentRequest *r = a->u.presentRequest; long st = (long) *r->resultSetStartPoint, n = (long) *r->numberOfRecordsRequested; B.asked.push_back({st, n}); size_t i = B.present++; B.esn = esn_text(r->recordComposition);
        if (oid_text(r->preferredRecordSyntax) != oid_text(yaz_oid_recsyn_xml)) B.errors.push_back("present not for XML");
        if (B.present > 200) throw Fail("presents without end");
        std::string f = i < B.plan.size() ? B.plan[i] : "all";
        if (f == "none") return;
        if (f == "close") { p.session().close(); p.response() = close_reply(o, a, Z_Close_systemProblem, 0); return; }
        if (f == "search") { p.response() = search_reply(o, a, 0, 0); return; }
        if (f.compare(0, 5, "diag:") == 0) { p.response() = present_reply(o, a, atoi(f.c_str() + 5), "pre"); return; }
        if (f == "multi") { Z_APDU *ra = present_reply(o, a, 0, 0); ra->u.presentResponse->records = multi(o); p.response() = ra; return; }
        if (f == "stuck") { B.plan.resize(B.present); B.plan.push_back("stuck"); f = "0"; }
        if (f == "norecs") { p.response() = present_reply(o, a, 0, 0); return; }
        if (st < 1 || n < 0 || st + n - 1 > B.hits) { p.response() = present_reply(o, a, YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE, 0); return; }
        long k = f == "all" ? n : f[0] == '+' ? n + atoi(f.c_str()) : std::min(n, atol(f.c_str()));
        Z_APDU *ra = present_reply(o, a, 0, 0); Z_NamePlusRecordList *l = record_list(o, (int) k); for (long j = 0; j < k; j++) l->records[j] = make_rec(o, st + j);
        ra->u.presentResponse->records = records(o, l); *ra->u.presentResponse->numberOfRecordsReturned = k; p.response() = ra; break; }
    case Z_APDU_close: B.open = false; p.response() = close_reply(o, a, Z_Close_finished, 0); break;
    default: B.errors.push_back("unexpected request");
    }
}
struct Rel { Rel() { hooks().fn = serve; } ~Rel() { hooks().fn = nullptr; } };
static std::string srw(int bib1) { return std::to_string(yaz_diag_bib1_to_srw(bib1)); }
static std::string with(const std::string &c, const std::string &a) { return a.empty() ? c : c + ":" + a; }
struct Conf { std::string sheet; bool limit = false; int max = 0; std::vector<std::string> dbs; };
static Conf gen_conf(Ctx &x)
{
    Conf c; if (x.chance(1, 4)) c.sheet = x.pick({"/def.xsl", "a.xsl"}); if (x.chance(1, 3)) { c.limit = true; c.max = x.range(0, 12); }
    for (auto d : {"d1", "a/b", "Default"}) if (x.chance(1, 3)) c.dbs.push_back(d);
    return c;
}
static std::string conf_xml(const Conf &c)
{
    std::string r = "<filter type=\"sru_z3950\">"; for (auto &d : c.dbs) r += "<database name=\"" + d + "\"><explain xmlns=\"http://explain.z3950.org/dtd/2.0/\"><t>" + d + "</t></explain></database>";
    if (!c.sheet.empty()) r += "<stylesheet>" + c.sheet + "</stylesheet>"; if (c.limit) r += "<limit retrieve=\"" + std::to_string(c.max) + "\"/>"; return r + "</filter>";
}
static Req gen_req(Ctx &x)
{
    Req r; r.how = x.weighted({6, 2, 2}); r.op = r.how == 2 || x.chance(9, 10) ? "searchRetrieve" : "scan"; r.version = r.how == 2 ? x.pick({"1.1", "1.2"}) : x.pick({"1.1", "1.2", "2.0"}); if (r.op == "scan" && r.version == "2.0") r.version = "1.2";
    r.db = x.pick({"d1", "", "a/b", "Default", "x%20y", "d,z"}); r.host = x.pick({"h.org:8080", "h.org", ""});
    switch (x.weighted({10, 3, 2, 1, 1, 1})) {
    case 0: r.q = x.pick({"x", "title=\"a b\"", "a and b", "\xc3\xa6=<&>"}); break;
    case 1: r.qtype = "pqf"; r.q = x.pick({"x", "@attr 1=4 \"a b\"", "@and a b"}); break;
    case 2: r.qtype = "ccl"; r.q = x.pick({"x", "ti=a"}); break;
    case 3: r.has_q = false; if (r.version == "2.0") r.version = "1.1"; break;
    case 4: r.qtype = "pqf"; r.q = x.pick({"@and a", "@attr x"}); break;
    case 5: r.qtype = "zork"; r.q = "x"; break;
    }
    if (r.how == 2 && (r.qtype == "ccl" || r.qtype == "zork" || !r.has_q)) { r.qtype = "cql"; r.q = "x"; r.has_q = true; }    // not expressible in SOAP
    if (x.coin()) { r.has_start = true; r.start = x.weighted({8, 1}) ? x.pick({0, 1000}) : x.range(1, 15); }
    if (x.chance(9, 10)) { r.has_max = true; r.max = x.weighted({8, 1}) ? x.pick({0, 5000}) : x.range(1, 20); }
    if (x.chance(1, 3)) { r.has_schema = true; r.schema = x.pick({"F", "dc", "info:srw/schema/1/dc"}); }
    if (x.chance(1, 3)) r.packing = x.pick({"xml", "string"});
    if (x.chance(1, 12)) r.xpath = "/a"; if (x.chance(1, 12)) r.sort = "title";
    if (r.how < 2) {
        if (x.chance(1, 4)) { r.has_sheet = true; r.sheet = x.pick({"s.xsl", ""}); }
        if (x.chance(1, 6)) r.target = x.pick({"t.org", "t.org:210/db", "t.org/d1+d2", "t.org:99/"});
        for (int i = x.chance(1, 4) ? x.range(1, 3) : 0; i > 0; i--) r.cl.emplace_back(x.pick({"ip", "ab", "k.z-1"}), x.pick({"1", "v w", "&=", "a+b"}));
        if (x.chance(1, 8)) r.sockets = x.pick({"3", "17", "0"}); if (x.chance(1, 8)) r.sesid = x.pick({"s1", "z"}); if (x.chance(1, 6)) r.log = x.pick({"1", "0"});
    }
    if (x.chance(1, 4)) { r.user = x.pick({"u", "user<1>"}); r.basic = r.how == 2 || x.coin(); if (r.basic || x.coin()) r.pass = x.pick({"p", "a&b"}); }
    if (x.chance(1, 5)) r.xff = x.pick({"10.1.2.3", "1.1.1.1, 2.2.2.2"});
    return r;
}
static void gen_back(Ctx &x, bool faults)
{
    B = Back(); B.hits = x.weighted({8, 1, 1}) == 0 ? x.range(1, 30) : x.coin() ? 0 : 3000; B.logs = x.coin();
    for (int i = 0; i < 30; i++) B.kinds.push_back(x.chance(1, 5) ? x.range(1, 7) : 0);
    if (x.coin()) for (int i = x.range(1, 8); i > 0; i--) B.plan.push_back(std::to_string(x.range(1, 6)));
    if (!faults) return;
    switch (x.weighted({2, 3, 6})) {
    case 0: B.initf = x.pick({"none", "close", "search", "diag:1011", "diag:100", "refuse"}); break;
    case 1: B.searchf = x.pick({"none", "close", "present", "diag:114", "diag:3", "noadd", "multi"}); break;
    default: B.plan.insert(B.plan.begin() + x.range(0, (int) B.plan.size()), x.pick({"none", "close", "search", "diag:13", "diag:238", "multi", "norecs", "0", "stuck", "+1", "+9"}));
    }
}
static void show(Ctx &x, const Req &r, const Conf &c)
{
    x.desc << conf_xml(c) << " req how=" << r.how << " /" << r.db << " host=" << r.host; for (auto &a : r.args()) x.desc << " " << a.first << "=" << q(a.second);
    if (r.basic) x.desc << " basic " << r.user << "/" << r.pass; if (!r.xff.empty()) x.desc << " xff=" << r.xff;
    x.desc << " hits=" << B.hits << " init=" << B.initf << " search=" << B.searchf << " plan="; for (auto &p : B.plan) x.desc << p << ","; x.desc << " kinds="; for (int k : B.kinds) x.desc << k; x.desc << "\n";
}
static std::string norm_xml(const std::string &s) { xmlDocPtr d = xmlReadMemory(s.data(), (int) s.size(), 0, 0, XML_PARSE_NOERROR | XML_PARSE_NOWARNING); if (!d) return "!" + s; xmlBufferPtr b = xmlBufferCreate(); xmlNodeDump(b, d, xmlDocGetRootElement(d), 0, 0); std::string r = (const char *) xmlBufferContent(b); xmlBufferFree(b); xmlFreeDoc(d); return r; }
static bool has_diag(const Ans &a, const std::string &d) { for (auto &k : a.diags) if (k == d) return true; return false; }
static std::string all(const Ans &a) { std::string r; for (auto &k : a.diags) r += "[" + k + "]"; return r; }
// what the search must look like to the server, and the client
static void judge(Ctx &x, const Req &r, const Conf &c, const Ans &a)
{
    for (auto &e : B.errors) x.fail("server: " + e);
    x.eq(a.err, std::string(), "answer"); x.eq(a.code, 200, "status");
    std::string sheet = r.has_sheet && r.how < 2 ? r.sheet : c.sheet; x.check(sheet.empty() ? a.sheet.empty() : a.sheet.find("\"" + sheet + "\"") != std::string::npos, "style sheet: " + a.sheet);
    if (r.op == "scan") { x.eq(a.op, std::string("scanResponse"), "operation"); x.check(has_diag(a, "4:scan"), "scan refused " + all(a)); x.eq(B.init, 0, "server asked"); return; }
    x.eq(a.op, std::string("searchRetrieveResponse"), "operation"); x.eq(a.version, r.version == "2.0" ? std::string() : r.version, "version");
    bool logged = r.log == "1" && B.logs && B.init;
    x.check(a.log.find("saw <init>") != std::string::npos ? logged : !logged, "log: " + a.log);
    if (!r.has_q) { x.check(has_diag(a, "7:query"), "query needed " + all(a)); x.eq(B.init, 0, "server asked"); x.eq(a.recs.size(), (size_t) 0, "records"); return; }
    // conversation
    x.eq(B.init, 1, "inits");
    x.eq(B.auth, r.user.empty() ? std::string("none") : r.pass.empty() ? "open:" + r.user : "idpass:" + r.user + "//" + r.pass, "credentials");
    x.eq(B.ip, r.xff, "client address"); std::string th = r.target, tdb; { auto p = th.find('/'); if (p != std::string::npos) { tdb = th.substr(p + 1); if (!tdb.empty()) th.resize(p); } } x.eq(B.proxy, th, "target");
    if (!r.sockets.empty()) x.eq(B.maxsock, atoi(r.sockets.c_str()), "sockets");
    if (!r.sesid.empty()) x.check(B.sesid.find(":" + r.sesid) != std::string::npos, "session id in " + B.sesid);
    x.check(!B.open, "the Z39.50 session stays open"); x.check(B.closes >= 1, "not closed");
    if (!B.initf.empty()) {
        x.nontrivial = true; x.eq(B.search, 0, "search after refused init"); x.eq(a.recs.size(), (size_t) 0, "records");
        if (B.initf.compare(0, 5, "diag:") == 0) x.check(has_diag(a, srw(atoi(B.initf.c_str() + 5)) + ":ini"), "init diagnostic " + all(a)); else x.check(!a.diags.empty(), "refused init unreported");
        return;
    }
    bool bad_pqf = r.qtype == "pqf" && (r.q == "@and a" || r.q == "@attr x");
    if (bad_pqf || r.qtype == "zork") { x.eq(B.search, 0, "search with bad query"); x.check(!a.diags.empty(), "bad query unreported"); if (bad_pqf) x.check(has_diag(a, "10:query"), "syntax error " + all(a)); return; }
    x.eq(B.search, 1, "searches");
    std::string db; if (!tdb.empty()) { db = tdb; for (auto &ch : db) if (ch == '+') ch = '|'; } else {
        db = r.db.empty() && r.how < 2 ? "Default" : r.db; if (r.how == 2) { db = r.db.empty() ? "Default" : r.db; }
        std::string s; for (auto &k : r.cl) s += (s.empty() ? "" : "&") + uri(k.first) + "=" + uri(k.second); if (!s.empty()) db += "," + s; }
    auto low = [](std::string s) { for (auto &ch : s) ch = (char) tolower(ch); return s; };
    if (r.how == 2 && r.db.empty()) { if (B.dbs.empty()) db = ""; }   // no database given by SOAP: not settled
    x.eq(low(B.dbs), low(db), "databases");
    { Mem o; Z_Query *z = 0; std::string w; if (r.qtype == "pqf") { z = pqf(o, r.q); w = query_text(z); } else if (r.qtype == "ccl") w = "CCL " + r.q; else w = "CQL " + r.q; x.eq(B.query, w, "query"); }
    if (!B.searchf.empty()) {
        x.nontrivial = true; x.eq(B.present, 0, "present after failed search"); x.eq(a.recs.size(), (size_t) 0, "records");
        if (B.searchf.compare(0, 5, "diag:") == 0) x.check(has_diag(a, srw(atoi(B.searchf.c_str() + 5)) + ":sea"), "search diagnostic " + all(a));
        else if (B.searchf == "noadd") x.check(has_diag(a, srw(114)), "search diagnostic " + all(a));
        else if (B.searchf == "multi") x.check(has_diag(a, srw(114) + ":m1") && has_diag(a, srw(117) + ":m2"), "search diagnostics " + all(a));
        else x.check(!a.diags.empty(), "failed search unreported");
        return;
    }
    x.eq(a.hits, std::to_string(B.hits), "hits");
    if (r.how < 2 && r.has_start && r.start < 1) { x.check(has_diag(a, "6:startRecord"), "start record refused " + all(a)); return; }
    if (B.hits == 0 || !r.has_max || r.max == 0) { x.eq(a.recs.size(), (size_t) 0, "records"); x.eq(B.present, 0, "presents"); x.check(a.diags.empty(), "diagnostics " + all(a)); return; }
    std::vector<std::string> want; if (!r.xpath.empty()) want.push_back("72"); if (!r.sort.empty()) want.push_back("80"); long st = r.has_start ? r.start : 1; if (st < 1 || st > B.hits) want.push_back("61");
    if (!want.empty()) { for (auto &w : want) x.check(has_diag(a, w), "diagnostic " + w + " in " + all(a)); x.eq(a.diags.size(), want.size(), "diagnostics"); x.eq(B.present, 0, "presents"); x.eq(a.recs.size(), (size_t) 0, "records"); return; }
    long n = std::min((long) r.max, B.hits - st + 1); if (c.limit && c.max > 0) n = std::min(n, (long) c.max);
    // presents: consecutive, each for what is missing
    long got = 0; std::string fault; for (size_t i = 0; i < B.asked.size(); i++) {
        x.eq(B.asked[i].first, st + got, "start of present"); x.eq(B.asked[i].second, n - got, "number of present"); if (got >= n) x.fail("present for nothing");
        std::string f = i < B.plan.size() ? B.plan[i] : "all"; if (isdigit(f[0]) && f != "0") got += std::min(n - got, atol(f.c_str())); else if (f == "all") got = n; else { fault = f; if (i + 1 != B.asked.size() && f != "0" && f != "stuck") x.fail("present after " + f); if (f[0] == '+') got = n; }
    }
    x.eq(B.esn, r.has_schema ? r.schema : std::string("-"), "schema");
    if (fault.empty()) { x.eq(a.recs.size(), (size_t) n, "number of records"); x.check(a.diags.empty(), "diagnostics " + all(a)); }
    else {
        x.label("fault " + fault); x.check((long) a.recs.size() <= got, "more records than there are");
        if (fault.compare(0, 5, "diag:") == 0) x.check(has_diag(a, srw(atoi(fault.c_str() + 5)) + ":pre"), "present diagnostic " + all(a));
        else if (fault == "multi") x.check(has_diag(a, srw(114) + ":m1") && has_diag(a, srw(117) + ":m2"), "present diagnostics " + all(a));
        else if (fault == "none" || fault == "close" || fault == "search") x.check(!a.diags.empty(), "failed present unreported");
        else if (fault[0] == '+') { x.eq((long) a.recs.size(), n, "number of records"); }
        else x.eq((long) a.recs.size(), got, "number of records");
    }
    for (size_t i = 0; i < a.recs.size(); i++) {
        long pos = st + (long) i; auto &k = a.recs[i]; int kind = pos <= (long) B.kinds.size() ? B.kinds[pos - 1] : 0;
        x.eq(k.pos, std::to_string(pos), "position");
        if (kind == 0) {
            bool str = r.packing == "string"; x.eq(k.packing, std::string(str ? "string" : "xml"), "packing"); if (str) x.eq(k.data, body_of(pos), "record " + k.pos); else x.eq(norm_xml(k.data), norm_xml(body_of(pos)), "record " + k.pos);
            x.eq(k.schema, r.has_schema ? r.schema : std::string(), "schema"); x.eq(k.diag, std::string(), "diagnostic");
        } else if (kind == 1) x.eq(k.diag, srw(14) + ":sd", "surrogate diagnostic"); else if (kind == 7) x.eq(k.diag, srw(14), "surrogate diagnostic");
        else x.check(!k.diag.empty(), "record " + k.pos + " is no XML: " + k.data);
    }
    if (fault.empty() || fault == "stuck" || isdigit(fault[0]) || fault[0] == '+') x.eq(a.next, st + (long) a.recs.size() <= B.hits ? std::to_string(st + a.recs.size()) : std::string(), "next position");
    if (a.recs.size() > 1) x.nontrivial = true;
}
static void one(Ctx &x, bool faults)
{
    Rel h; Conf c = gen_conf(x); Net net({&metaproxy_1_filter_sru_z3950}, route("start", conf_xml(c) + hook("z"))); Client cl(net);
    int n = x.range(1, 3);
    for (int i = 0; i < n; i++) {
        gen_back(x, faults && x.chance(2, 3)); Req r = gen_req(x); show(x, r, c); Mem o;
        cl.send(r.make(o)); Ans a = parse(cl.last.get()); judge(x, r, c, a); x.check(!cl.closed, "connection closed"); if (x.nontrivial) x.label("how" + std::to_string(r.how));
    }
    B = Back(); cl.hangup(); x.eq(B.errors.size(), (size_t) 0, "errors at the end");
}
static void explain(Ctx &x)
{
    Rel h; Conf c = gen_conf(x); Net net({&metaproxy_1_filter_sru_z3950}, route("start", conf_xml(c) + hook("z"))); Client cl(net); B = Back();
    Req r; r.op = "explain"; r.how = x.weighted({4, 1, 1}); r.version = r.how == 2 ? x.pick({"1.1", "1.2"}) : x.pick({"1.1", "1.2", "2.0"}); r.db = x.pick({"d1", "", "a/b", "x", "a&b", "<z>", "a'\"", "q%3f"}); r.host = x.pick({"h.org:8080", "h.org", "", "1.2.3.4:99", "a&b:1"}); if (r.how < 2 && x.coin()) r.packing = x.pick({"xml", "string"});
    if (r.how < 2 && x.chance(1, 4)) { r.has_sheet = true; r.sheet = x.pick({"s.xsl", ""}); }
    bool bare = x.chance(1, 4); Mem o; Z_GDU *g = r.make(o); if (bare && r.how == 0) { std::string p = "/" + r.db; if (x.coin()) p += x.pick({"?", "?x-a=b", "?x-a=c?d"}); g->u.HTTP_Request->path = odr_strdup(o, p.c_str()); r.has_sheet = false; r.packing = ""; } else bare = false;
    show(x, r, c); x.desc << " path " << g->u.HTTP_Request->path;
    cl.send(g); Ans a = parse(cl.last.get()); x.eq(a.err, std::string(), "answer"); x.eq(a.code, 200, "status"); x.eq(a.op, std::string("explainResponse"), "operation"); x.check(a.diags.empty(), "diagnostics " + all(a));
    x.eq(a.recs.size(), (size_t) 1, "records"); auto &k = a.recs[0]; x.eq(k.packing, std::string(r.packing == "string" ? "string" : "xml"), "packing"); x.eq(k.schema, std::string("http://explain.z3950.org/dtd/2.0/"), "schema");
    xmlDocPtr d = xmlReadMemory(k.data.data(), (int) k.data.size(), 0, 0, XML_PARSE_NOERROR | XML_PARSE_NOWARNING); x.check(d != 0, "explain record is not XML: " + k.data); xmlNode *n = xmlDocGetRootElement(d); std::string rdb = r.db.empty() ? "Default" : r.db; bool conf = false; for (auto &s : c.dbs) conf |= s == rdb;
    std::map<std::string, std::string> m; for (xmlNode *e = n->children; e; e = e->next) { if (is(e, "t")) m["t"] = text(e); if (is(e, "serverInfo")) for (xmlNode *f = e->children; f; f = f->next) if (f->type == XML_ELEMENT_NODE) m[(const char *) f->name] = text(f); }
    xmlFreeDoc(d);
    std::string hh = r.host, pp = "80"; { auto p = hh.rfind(':'); if (p != std::string::npos) { pp = hh.substr(p + 1); hh.resize(p); } } if (hh.empty()) hh = "localhost";
    if (conf) x.eq(m["t"], rdb, "configured record"); else { x.eq(m["host"], hh, "host"); x.eq(m["port"], pp, "port"); x.eq(m["database"], rdb, "database"); }
    std::string sheet = r.has_sheet ? r.sheet : c.sheet; x.check(sheet.empty() ? a.sheet.empty() : a.sheet.find("\"" + sheet + "\"") != std::string::npos, "style sheet: " + a.sheet);
    x.eq(B.init, 0, "server asked"); x.nontrivial = r.db.size() > 0; x.label(conf ? "configured" : bare ? "bare" : "minimal");
}
// anything else: some answer, no crash, session over when it is no SRU
static void odd(Ctx &x)
{
    Rel h; Conf c = gen_conf(x); Net net({&metaproxy_1_filter_sru_z3950}, route("start", conf_xml(c) + hook("z"))); Client cl(net);
    int n = x.range(1, 3);
    for (int i = 0; i < n && !cl.closed; i++) {
        gen_back(x, x.coin()); Req r = gen_req(x); Mem o; Z_GDU *g = r.make(o); Z_HTTP_Request *h = g->u.HTTP_Request; std::string p = h->path, b(h->content_buf ? h->content_buf : "", h->content_len);
        auto hack = [&](std::string &s) { if (s.empty()) return; for (int k = x.range(1, 3); k > 0 && !s.empty(); k--) { size_t at = x.range(0, (int) s.size() - 1); switch (x.range(0, 3)) { case 0: s.erase(at, x.range(1, 5)); break; case 1: s.insert(at, x.pick({"=", "&", "%", "%zz", "<", "&x-target", "&x-target=", "&x-client-a=", "&operation=update", "&operation=zork", "&maximumRecords=-2", "&startRecord=-1", "&maximumRecords=99999999", "&x-max-sockets=", "&facetLimit=3:x", "&version=7"})); break; case 2: s[at] = (char) x.range(1, 255); break; default: s.resize(at); if (s.empty()) s = "/"; } } };
        int w = x.range(0, 3); bool upd = false;
        if (w == 3 && r.how == 2 && (upd = x.coin())) {
            Z_SRW_PDU *u = yaz_srw_get_pdu(o, Z_SRW_update_request, "1.1"); u->u.update_request->operation = (char *) "info:srw/operation/1/create"; u->u.update_request->recordId = (char *) "1";
            g = z_get_HTTP_Request(o); h = g->u.HTTP_Request; h->version = (char *) "1.1"; if (yaz_sru_soap_encode(h, u, o, 0)) throw Fail("generator: SOAP update"); p = "/d1"; b.assign(h->content_buf, h->content_len);
        }
        if (w == 0) hack(p); else if (w == 1) { if (b.empty()) hack(p); else hack(b); } else if (w == 2) h->method = odr_strdup(o, x.pick({"POST", "PUT", "HEAD", "get", ""}).c_str()); else if (r.how < 2) p += (r.how ? "?" : "&") + std::string(x.pick({"operation=update", "operation=foo", "version=3.9", "maximumRecords=-1", "startRecord=-1", "x-target=", "unknown=1", "facetLimit=1:a"}));
        for (auto &ch : p) if ((unsigned char) ch <= ' ' || ch == 127) ch = '_';
        if (p[0] != '/') p = "/" + p;
        h->path = odr_strdup(o, p.c_str()); if (h->content_buf) { h->content_buf = odr_strdup(o, b.c_str()); h->content_len = (int) b.size(); }
        x.desc << w << " " << h->method << " " << q(h->path) << " " << q(b) << "\n"; show(x, r, c);
        cl.send(g); Ans a = parse(cl.last.get()); x.check(a.err.empty() || a.err.compare(0, 7, "not XML") == 0, a.err); for (auto &e : B.errors) x.fail("server: " + e);
        if (a.code == 200) { x.check(!B.open, "the Z39.50 session stays open"); x.nontrivial = true; x.label(a.op); if (upd) x.check(!a.diags.empty(), "update unreported: " + a.op + std::string(cl.last.get()->u.HTTP_Response->content_buf, cl.last.get()->u.HTTP_Response->content_len)); if (r.how < 2 && p.find("operation=foo") != std::string::npos && w == 3 && r.version != "2.0" && a.op == "explainResponse") x.check(!a.diags.empty(), "unknown operation unreported"); }
        else { x.eq(a.code, 400, "status"); x.eq(B.init, 0, "server asked"); x.label("400"); }
    }
    // Z39.50 passes
    if (!cl.closed && x.coin()) { Mem o; B = Back(); cl.send(init(o)); x.check(init_of(cl.last.get()), "Z39.50 does not pass"); cl.send(search(o, Search())); x.check(search_of(cl.last.get()), "Z39.50 search does not pass"); }
}
static void xml_quiet(void *, const char *, ...) {}
int main(int argc, char **argv)
{
    quiet(); xmlSetGenericErrorFunc(0, xml_quiet); Check c; c.id = "C19";
    c.add("retrieve", 6000, 80000, "more than one record delivered", [](Ctx &x) { one(x, false); });
    c.add("faults", 6000, 80000, "a fault of the server, or more than one record", [](Ctx &x) { one(x, true); });
    c.add("explain", 3000, 20000, "a database is named", explain);
    c.add("odd requests", 4000, 60000, "an SRU answer to a distorted request", odd);
    return run(c, argc, argv);
}
