// Driving filters in-process: a client, a model Z39.50 server, and a router
// made from a real configuration.
#pragma once
#include "pbt.hpp"
#include "router_flexml.hpp"
#include "factory_filter.hpp"
#include <metaproxy/filter.hpp>
#include <metaproxy/package.hpp>
#include <metaproxy/util.hpp>
#include <metaproxy/xmlutil.hpp>
#include <yaz/log.h>
#include <yaz/pquery.h>
#include <yaz/querytowrbuf.h>
#include <yaz/query-charset.h>
#include <yaz/diagbib1.h>
#include <yaz/oid_db.h>
#include <yaz/otherinfo.h>
#include <yaz/prt-ext.h>
#include <yaz/proto.h>
#include <yaz/srw.h>
#include <memory>
#include <functional>
#include <mutex>
namespace zk {
namespace mp = metaproxy_1;
using pbt::Ctx;
inline void quiet_log(int, const char *, void *) {}
inline void quiet() { yaz_log_set_handler(quiet_log, 0); yaz_log_init_level(0); }

// an ODR memory area
struct Mem {
    ODR o; Mem() : o(odr_createmem(ODR_ENCODE)) {} ~Mem() { odr_destroy(o); }
    Mem(const Mem &) = delete; operator ODR() const { return o; }
};
inline std::string print(const Z_GDU *g)
{
    if (!g) return "(none)";
    ODR o = odr_createmem(ODR_PRINT); WRBUF w = wrbuf_alloc();
    odr_set_stream(o, w, [](ODR, void *h, int, const char *b, int n) { wrbuf_write((WRBUF) h, b, n); }, [](void *) {});
    Z_GDU *gg = (Z_GDU *) g; z_GDU(o, &gg, 0, 0);
    std::string r(wrbuf_buf(w), wrbuf_len(w)); wrbuf_destroy(w); odr_destroy(o); return r;
}
inline std::string encode(const Z_GDU *g)
{
    if (!g) return "";
    ODR o = odr_createmem(ODR_ENCODE); Z_GDU *gg = (Z_GDU *) g; std::string r;
    if (z_GDU(o, &gg, 0, 0)) { int l; char *b = odr_getbuf(o, &l, 0); r.assign(b, l); }
    odr_destroy(o); return r;
}
inline std::string query_text(Z_Query *q) { WRBUF w = wrbuf_alloc(); yaz_query_to_wrbuf(w, q); std::string r = wrbuf_cstr(w); wrbuf_destroy(w); return r; }
inline std::string oid_text(const Odr_oid *o) { if (!o) return "-"; char b[OID_STR_MAX]; return oid_oid_to_dotstring(o, b); }
inline std::string esn_text(Z_RecordComposition *c)
{
    if (!c) return "-";
    if (c->which == Z_RecordComp_simple) return c->u.simple->which == Z_ElementSetNames_generic ? c->u.simple->u.generic : "?";
    Z_CompSpec *k = c->u.complex;
    if (k->generic && k->generic->elementSpec && k->generic->elementSpec->which == Z_ElementSpec_elementSetName) return k->generic->elementSpec->u.elementSetName;
    return "-";
}
inline Z_Query *pqf(ODR o, const std::string &s)
{
    YAZ_PQF_Parser p = yaz_pqf_create(); Z_Query *q = (Z_Query *) odr_malloc(o, sizeof *q);
    q->which = Z_Query_type_1; q->u.type_1 = yaz_pqf_parse(p, o, s.c_str()); yaz_pqf_destroy(p);
    if (!q->u.type_1) throw pbt::Fail("generator: bad PQF " + s);
    return q;
}
// independent of the code under test
inline Z_ReferenceId **refp(const Z_APDU *a)
{
    switch (a->which) {
#define R(n) case Z_APDU_##n: return &a->u.n->referenceId;
    R(initRequest) R(initResponse) R(searchRequest) R(searchResponse) R(presentRequest) R(presentResponse)
    R(deleteResultSetRequest) R(deleteResultSetResponse) R(accessControlRequest) R(accessControlResponse)
    R(resourceControlRequest) R(resourceControlResponse) R(triggerResourceControlRequest) R(resourceReportRequest) R(resourceReportResponse)
    R(scanRequest) R(scanResponse) R(sortRequest) R(sortResponse) R(segmentRequest) R(extendedServicesRequest) R(extendedServicesResponse) R(close)
#undef R
    default: return 0; }
}
inline Z_APDU *reply(ODR o, int type, const Z_APDU *req)
{
    Z_APDU *a = zget_APDU(o, type); Z_ReferenceId **r = refp(a), **q = refp(req);
    if (r && q && *q) *r = odr_create_Odr_oct(o, (const char *) (*q)->buf, (*q)->len);
    return a;
}
inline Z_Records *diag_records(ODR o, int code, const char *add)
{
    Z_Records *r = (Z_Records *) odr_malloc(o, sizeof *r); r->which = Z_Records_NSD; r->u.nonSurrogateDiagnostic = zget_DefaultDiagFormat(o, code, add); return r;
}
inline Z_APDU *search_reply(ODR o, const Z_APDU *q, int code, const char *add)
{
    Z_APDU *a = reply(o, Z_APDU_searchResponse, q); if (code) { *a->u.searchResponse->searchStatus = 0; a->u.searchResponse->records = diag_records(o, code, add); } return a;
}
inline Z_APDU *present_reply(ODR o, const Z_APDU *q, int code, const char *add)
{
    Z_APDU *a = reply(o, Z_APDU_presentResponse, q);
    if (code) { *a->u.presentResponse->presentStatus = Z_PresentStatus_failure; a->u.presentResponse->records = diag_records(o, code, add); } return a;
}
inline Z_APDU *init_reply(ODR o, const Z_APDU *q, int code, const char *add)
{
    Z_APDU *a = reply(o, Z_APDU_initResponse, q); if (code) { *a->u.initResponse->result = 0; a->u.initResponse->userInformationField = zget_init_diagnostics(o, code, add); } return a;
}
inline Z_APDU *scan_reply(ODR o, const Z_APDU *q, int code, const char *add)
{
    Z_APDU *a = reply(o, Z_APDU_scanResponse, q); Z_ScanResponse *r = a->u.scanResponse;
    if (code) {
        *r->scanStatus = Z_Scan_failure; r->entries = (Z_ListEntries *) odr_malloc(o, sizeof(Z_ListEntries)); r->entries->num_entries = 0; r->entries->entries = 0;
        r->entries->num_nonsurrogateDiagnostics = 1; r->entries->nonsurrogateDiagnostics = (Z_DiagRec **) odr_malloc(o, sizeof(Z_DiagRec *));
        r->entries->nonsurrogateDiagnostics[0] = zget_DiagRec(o, code, add);
    }
    return a;
}
inline Z_APDU *close_reply(ODR o, const Z_APDU *q, int reason, const char *msg)
{
    Z_APDU *a = reply(o, Z_APDU_close, q); *a->u.close->closeReason = reason; if (msg) a->u.close->diagnosticInformation = odr_strdup(o, msg); return a;
}
// target hosts, in the order of the other information fields
inline std::vector<std::string> vhosts_of(Z_OtherInformation *oi)
{
    std::vector<std::string> v;
    if (oi) for (int cat = 1; ; cat++) {
        bool got = false;
        for (int i = 0; i < oi->num_elements && !got; i++) {
            Z_OtherInformationUnit *u = oi->list[i];
            if (u->category && u->category->categoryTypeId && u->which == Z_OtherInfo_characterInfo &&
                oid_text(u->category->categoryTypeId) == oid_text(yaz_oid_userinfo_proxy) && u->category->categoryValue && *u->category->categoryValue == cat)
                { v.push_back(u->information.characterInfo); got = true; }
        }
        if (!got) break;
    }
    return v;
}
inline long piggyback_count(Z_SearchRequest *r, long hits, std::string &esn)
{
    auto nm = [](Z_ElementSetNames *e) { return e && e->which == Z_ElementSetNames_generic ? std::string(e->u.generic) : std::string("-"); };
    if (hits <= *r->smallSetUpperBound) { esn = nm(r->smallSetElementSetNames); return hits; }
    if (hits >= *r->largeSetLowerBound) return 0;
    esn = nm(r->mediumSetElementSetNames); return (long) *r->mediumSetPresentNumber;
}
inline void set_ref(ODR o, Z_APDU *a, const std::string &ref)
{
    Z_ReferenceId **r = refp(a);
    if (r && !ref.empty()) *r = odr_create_Odr_oct(o, ref.data(), (int) ref.size());
}
inline std::string get_ref(const Z_APDU *a)
{
    Z_ReferenceId **r = refp(a);
    return r && *r ? std::string((const char *) (*r)->buf, (*r)->len) : "";
}
inline const char *name(int which)
{
    switch (which) {
    case Z_APDU_initRequest: return "init"; case Z_APDU_initResponse: return "initResponse";
    case Z_APDU_searchRequest: return "search"; case Z_APDU_searchResponse: return "searchResponse";
    case Z_APDU_presentRequest: return "present"; case Z_APDU_presentResponse: return "presentResponse";
    case Z_APDU_scanRequest: return "scan"; case Z_APDU_scanResponse: return "scanResponse";
    case Z_APDU_sortRequest: return "sort"; case Z_APDU_sortResponse: return "sortResponse";
    case Z_APDU_deleteResultSetRequest: return "delete"; case Z_APDU_deleteResultSetResponse: return "deleteResponse";
    case Z_APDU_close: return "close"; default: return "other"; }
}
inline int response_type(int which)
{
    switch (which) {
    case Z_APDU_initRequest: return Z_APDU_initResponse; case Z_APDU_searchRequest: return Z_APDU_searchResponse;
    case Z_APDU_presentRequest: return Z_APDU_presentResponse; case Z_APDU_scanRequest: return Z_APDU_scanResponse;
    case Z_APDU_sortRequest: return Z_APDU_sortResponse; case Z_APDU_deleteResultSetRequest: return Z_APDU_deleteResultSetResponse;
    case Z_APDU_resourceControlRequest: return Z_APDU_resourceControlResponse; case Z_APDU_extendedServicesRequest: return Z_APDU_extendedServicesResponse;
    case Z_APDU_resourceReportRequest: return Z_APDU_resourceReportResponse;
    default: return Z_APDU_close; }
}
inline void strings(ODR o, const std::vector<std::string> &v, int *n, char ***out)
{
    *n = (int) v.size(); *out = (char **) odr_malloc(o, sizeof(char *) * (v.size() + 1));
    for (size_t i = 0; i < v.size(); i++) (*out)[i] = odr_strdup(o, v[i].c_str());
}
inline Z_RecordComposition *simple_comp(ODR o, const std::string &esn)
{
    if (esn.empty()) return 0;
    Z_RecordComposition *c = (Z_RecordComposition *) odr_malloc(o, sizeof *c);
    c->which = Z_RecordComp_simple; c->u.simple = (Z_ElementSetNames *) odr_malloc(o, sizeof(Z_ElementSetNames));
    c->u.simple->which = Z_ElementSetNames_generic; c->u.simple->u.generic = odr_strdup(o, esn.c_str()); return c;
}
inline Z_ElementSetNames *esns(ODR o, const std::string &esn) { Z_RecordComposition *c = simple_comp(o, esn); return c ? c->u.simple : 0; }
inline Odr_oid *syntax(ODR o, const std::string &s)   // name, e.g. "xml"; empty none
{
    if (s.empty()) return 0;
    return yaz_string_to_oid_odr(yaz_oid_std(), CLASS_RECSYN, s.c_str(), o);
}
inline std::string auth_text(Z_IdAuthentication *a)
{
    auto sv = [](const char *s) { return std::string(s ? s : ""); };
    if (!a) return "none";
    if (a->which == Z_IdAuthentication_open) return "open:" + sv(a->u.open);
    if (a->which == Z_IdAuthentication_idPass) return "idpass:" + sv(a->u.idPass->userId) + "/" + sv(a->u.idPass->groupId) + "/" + sv(a->u.idPass->password);
    return "other";
}
inline Z_IdAuthentication *auth_open(ODR o, const std::string &s)
{ Z_IdAuthentication *a = (Z_IdAuthentication *) odr_malloc(o, sizeof *a); a->which = Z_IdAuthentication_open; a->u.open = odr_strdup(o, s.c_str()); return a; }
inline Z_IdAuthentication *auth_idpass(ODR o, const std::string &u, const std::string &g, const std::string &p)
{
    Z_IdAuthentication *a = (Z_IdAuthentication *) odr_malloc(o, sizeof *a); a->which = Z_IdAuthentication_idPass; a->u.idPass = (Z_IdPass *) odr_malloc(o, sizeof(Z_IdPass));
    a->u.idPass->userId = u.empty() ? 0 : odr_strdup(o, u.c_str()); a->u.idPass->groupId = g.empty() ? 0 : odr_strdup(o, g.c_str()); a->u.idPass->password = p.empty() ? 0 : odr_strdup(o, p.c_str()); return a;
}
inline void set_vhosts(ODR o, Z_OtherInformation **oi, const std::vector<std::string> &v) { int c = 1; for (auto &s : v) yaz_oi_set_string_oid(oi, o, yaz_oid_userinfo_proxy, c++, s.c_str()); }
// request builders
// other information with one text, and back
inline std::string oi_text(Z_OtherInformation *oi) { std::string r; for (int i = 0; oi && i < oi->num_elements; i++) if (oi->list[i]->which == Z_OtherInfo_characterInfo) r += oi->list[i]->information.characterInfo; return r; }
inline Z_OtherInformation *oi_make(ODR o, const std::string &t) { Z_OtherInformation *oi = 0; if (!t.empty()) yaz_oi_set_string_oid(&oi, o, yaz_oid_userinfo_cookie, 1, t.c_str()); return oi; }
struct Search { std::string info, set = "default", query = "x", syn, esn_s, esn_m, ref; std::vector<std::string> dbs{"Default"}; bool replace = true; int ssub = 0, lslb = 1, mspn = 0; };
inline Z_APDU *search(ODR o, const Search &s)
{
    Z_APDU *a = zget_APDU(o, Z_APDU_searchRequest); Z_SearchRequest *r = a->u.searchRequest;
    r->resultSetName = odr_strdup(o, s.set.c_str()); r->query = pqf(o, s.query); strings(o, s.dbs, &r->num_databaseNames, &r->databaseNames);
    *r->replaceIndicator = s.replace; *r->smallSetUpperBound = s.ssub; *r->largeSetLowerBound = s.lslb; *r->mediumSetPresentNumber = s.mspn;
    r->preferredRecordSyntax = syntax(o, s.syn); r->smallSetElementSetNames = esns(o, s.esn_s); r->mediumSetElementSetNames = esns(o, s.esn_m);
    r->additionalSearchInfo = oi_make(o, s.info); set_ref(o, a, s.ref); return a;
}
struct Present { std::string set = "default", syn, esn, ref; int start = 1, num = 1; };
inline Z_APDU *present(ODR o, const Present &s)
{
    Z_APDU *a = zget_APDU(o, Z_APDU_presentRequest); Z_PresentRequest *r = a->u.presentRequest;
    r->resultSetId = odr_strdup(o, s.set.c_str()); *r->resultSetStartPoint = s.start; *r->numberOfRecordsRequested = s.num;
    r->preferredRecordSyntax = syntax(o, s.syn); r->recordComposition = simple_comp(o, s.esn); set_ref(o, a, s.ref); return a;
}
struct Scan { std::vector<std::string> dbs{"Default"}; std::string term = "a", ref; int num = 5, pos = 1, step = -1; };
inline Z_APDU *scan(ODR o, const Scan &s)
{
    Z_APDU *a = zget_APDU(o, Z_APDU_scanRequest); Z_ScanRequest *r = a->u.scanRequest;
    strings(o, s.dbs, &r->num_databaseNames, &r->databaseNames);
    YAZ_PQF_Parser p = yaz_pqf_create(); r->termListAndStartPoint = yaz_pqf_scan(p, o, &r->attributeSet, ("\"" + s.term + "\"").c_str()); yaz_pqf_destroy(p);
    *r->numberOfTermsRequested = s.num; if (s.pos >= 0) r->preferredPositionInResponse = odr_intdup(o, s.pos); else r->preferredPositionInResponse = 0;
    if (s.step >= 0) r->stepSize = odr_intdup(o, s.step);
    set_ref(o, a, s.ref); return a;
}
inline Z_APDU *init(ODR o, const std::vector<int> &opts = {Z_Options_search, Z_Options_present, Z_Options_scan, Z_Options_namedResultSets, Z_Options_delSet, Z_Options_sort}, const std::string &ref = "")
{
    Z_APDU *a = zget_APDU(o, Z_APDU_initRequest); Z_InitRequest *r = a->u.initRequest;
    ODR_MASK_ZERO(r->options); ODR_MASK_ZERO(r->protocolVersion);
    for (int k : opts) ODR_MASK_SET(r->options, k);
    ODR_MASK_SET(r->protocolVersion, Z_ProtocolVersion_1); ODR_MASK_SET(r->protocolVersion, Z_ProtocolVersion_2); ODR_MASK_SET(r->protocolVersion, Z_ProtocolVersion_3);
    set_ref(o, a, ref); return a;
}
inline Z_APDU *close(ODR o, int reason = Z_Close_finished) { Z_APDU *a = zget_APDU(o, Z_APDU_close); *a->u.close->closeReason = reason; return a; }

// records
inline Z_NamePlusRecord *record(ODR o, const std::string &db, const Odr_oid *syn, const std::string &body)
{
    Z_NamePlusRecord *n = (Z_NamePlusRecord *) odr_malloc(o, sizeof *n);
    n->databaseName = db.empty() ? 0 : odr_strdup(o, db.c_str()); n->which = Z_NamePlusRecord_databaseRecord;
    n->u.databaseRecord = z_ext_record_oid(o, syn, body.data(), (int) body.size());
    return n;
}
inline std::string ext_text(Z_External *e)
{
    if (!e) return "-";
    if (e->which == Z_External_octet) return std::string((const char *) e->u.octet_aligned->buf, e->u.octet_aligned->len);
    if (e->which == Z_External_sutrs) return std::string((const char *) e->u.sutrs->buf, e->u.sutrs->len);
    return "ext" + std::to_string(e->which);
}
inline Z_NamePlusRecordList *record_list(ODR o, int n)
{
    Z_NamePlusRecordList *l = (Z_NamePlusRecordList *) odr_malloc(o, sizeof *l); l->num_records = n;
    l->records = (Z_NamePlusRecord **) odr_malloc(o, sizeof(Z_NamePlusRecord *) * (n + 1)); return l;
}
inline Z_Records *records(ODR o, Z_NamePlusRecordList *l)
{
    Z_Records *r = (Z_Records *) odr_malloc(o, sizeof *r); r->which = Z_Records_DBOSD; r->u.databaseOrSurDiagnostics = l; return r;
}
inline std::string diag_text(Z_DefaultDiagFormat *d)
{
    std::string r = d->condition ? std::to_string((long) *d->condition) : "?";
    const char *a = d->which == Z_DefaultDiagFormat_v2Addinfo ? d->u.v2Addinfo : d->u.v3Addinfo;
    return r + (a && *a ? std::string(":") + a : "");
}
struct Recs { std::string diag; std::vector<std::string> body, db, syn; };   // surrogate diag: body "!code"
inline Recs recs(Z_Records *r)
{
    Recs x; if (!r) return x;
    if (r->which == Z_Records_NSD) x.diag = diag_text(r->u.nonSurrogateDiagnostic);
    else if (r->which == Z_Records_multipleNSD) {
        x.diag = "multi";
        for (int i = 0; i < r->u.multipleNonSurDiagnostics->num_diagRecs; i++) { Z_DiagRec *d = r->u.multipleNonSurDiagnostics->diagRecs[i]; x.diag += " " + (d->which == Z_DiagRec_defaultFormat ? diag_text(d->u.defaultFormat) : "ext"); }
    } else {
        Z_NamePlusRecordList *l = r->u.databaseOrSurDiagnostics;
        for (int i = 0; i < l->num_records; i++) {
            Z_NamePlusRecord *n = l->records[i]; x.db.push_back(n->databaseName ? n->databaseName : "-");
            if (n->which == Z_NamePlusRecord_databaseRecord) { x.body.push_back(ext_text(n->u.databaseRecord)); x.syn.push_back(oid_text(n->u.databaseRecord->direct_reference)); }
            else if (n->which == Z_NamePlusRecord_surrogateDiagnostic) { Z_DiagRec *d = n->u.surrogateDiagnostic; x.body.push_back("!" + (d->which == Z_DiagRec_defaultFormat ? diag_text(d->u.defaultFormat) : std::string("ext"))); x.syn.push_back("!"); }
            else { x.body.push_back("?"); x.syn.push_back("?"); }
        }
    }
    return x;
}
inline Z_InitResponse *init_of(Z_GDU *g) { return g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_initResponse ? g->u.z3950->u.initResponse : 0; }
inline Z_SearchResponse *search_of(Z_GDU *g) { return g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_searchResponse ? g->u.z3950->u.searchResponse : 0; }
inline Z_PresentResponse *present_of(Z_GDU *g) { return g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_presentResponse ? g->u.z3950->u.presentResponse : 0; }
inline Z_ScanResponse *scan_of(Z_GDU *g) { return g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_scanResponse ? g->u.z3950->u.scanResponse : 0; }
inline bool is_close(Z_GDU *g) { return g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_close; }

// a filter whose behaviour is a function; its label comes from <v>
struct Hook;
struct HookWorld { std::function<void(const Hook *, mp::Package &)> fn; };
inline HookWorld &hooks() { static HookWorld w; return w; }
struct Hook : mp::filter::Base {
    std::string label;
    void process(mp::Package &p) const { if (hooks().fn) hooks().fn(this, p); }
    void configure(const xmlNode *ptr, bool, const char *) {
        for (const xmlNode *c = ptr->children; c; c = c->next)
            if (c->type == XML_ELEMENT_NODE && !strcmp((const char *) c->name, "v")) label = mp::xml::get_text(c);
    }
    static mp::filter::Base *make() { return new Hook; }
};
inline std::string esc(const std::string &s)
{
    std::string r;
    for (char c : s) r += c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : std::string(1, c);
    return r;
}
// a router from <route> bodies
struct Net {
    mp::FactoryFilter f; std::unique_ptr<mp::RouterFleXML> r; std::string xml;
    Net(std::initializer_list<struct metaproxy_1_filter_struct *> types, const std::string &routes, const std::string &start = "start") {
        f.add_creator("hook", Hook::make);
        for (auto *t : types) f.add_creator(t->type, t->creator);
        xml = "<metaproxy xmlns=\"http://indexdata.com/metaproxy\" version=\"1.0\"><start route=\"" + start + "\"/><routes>" + routes + "</routes></metaproxy>";
        r.reset(new mp::RouterFleXML(xml, f, false));
        r->start();
    }
};
inline std::string route(const std::string &id, const std::string &filters) { return "<route id=\"" + id + "\">" + filters + "</route>"; }
inline std::string hook(const std::string &label) { return "<filter type=\"hook\"><v>" + esc(label) + "</v></filter>"; }

// a client connection, as the network frontend drives one
struct Client {
    Net &n; mp::Session s; mp::Origin o; yazpp_1::GDU last; bool closed = false;
    Client(Net &net, const std::string &peer = "127.0.0.1") : n(net) { o.set_tcpip_address(peer + " @:9000", s.id()); }
    Z_GDU *send(Z_GDU *g) {
        mp::Package p(s, o); p.router(*n.r); p.request() = yazpp_1::GDU(g); p.move();
        last = p.response(); if (p.session().is_closed()) closed = true;
        zk::encode(p.request().get());      // the request stays readable, as for filters that log it afterwards
        return last.get();
    }
    Z_GDU *send(Z_APDU *a) {
        mp::Package p(s, o); p.router(*n.r); p.request() = a; p.move();
        last = p.response(); if (p.session().is_closed()) closed = true;
        zk::encode(p.request().get());      // the request stays readable, as for filters that log it afterwards
        return last.get();
    }
    void hangup() {       // the connection is gone
        if (gone) return;
        gone = true; s.close(); mp::Package p(s, o); p.router(*n.r); p.move();
    }
    bool gone = false;
    ~Client() { if (!std::uncaught_exceptions()) hangup(); }
};

// A model Z39.50 server.  Every answer is a function of what was asked, so that
// a client can tell whether it got the answer to its own question.
// a diagnostic a server may come up with
inline std::string any_diag(pbt::Ctx &x) { static const int some[] = {1, 2, 3, 13, 14, 23, 30, 31, 100, 108, 109, 113, 114, 125, 205, 235, 236, 238, 1005, 1010, 1011, 1055}; return "diag:" + std::to_string(x.coin() ? some[x.range(0, (int) (sizeof some / sizeof *some) - 1)] : x.range(1, 1100)); }
struct Server {
    bool echo = false;           // what a search says besides its query comes back
    std::vector<int> extra;      // options granted whether asked for or not
    struct Set { std::vector<std::string> dbs; std::string query; long hits; };
    struct Ses { std::string peer, auth; bool inited = false, closed = false; std::vector<std::string> vhosts; std::map<std::string, Set> sets; std::string label; int requests = 0; };
    std::map<unsigned long, Ses> ses; std::vector<std::string> errors; int opened = 0;
    std::mutex m;
    // behaviour
    bool named = true, piggyback = true, one_peer = true;
    int searches = 0, presents = 0, inits = 0;
    std::function<long(const std::string &label, const std::vector<std::string> &dbs, const std::string &q)> hits;
    // fault: "" none, "drop" closes the session, "none" no response, "diag:N" diagnostic, "badinit"
    std::function<std::string(const std::string &label, Ses &, Z_APDU *)> fault;
    std::function<int(int want)> cap;                       // records per response
    std::function<void(const std::string &, mp::Package &, Z_APDU *)> seen;
    Odr_oid *def_syntax(ODR o) { return syntax(o, "xml"); }
    static std::string join(const std::vector<std::string> &v) { std::string r; for (auto &s : v) r += (r.empty() ? "" : "+") + s; return r; }
    static std::string body(const std::string &label, const std::vector<std::string> &dbs, const std::string &q, long pos, const std::string &syn, const std::string &esn)
    { return label + "|" + join(dbs) + "|" + q + "|" + std::to_string(pos) + "|" + syn + "|" + esn; }
    static std::string ident(const std::string &label, const Ses &s) { return s.vhosts.empty() ? label : label + "@" + join(s.vhosts); }
    std::function<std::string(const Ses &, long pos)> recdb;   // database name of a record
    void error(const std::string &e) { errors.push_back(e); }
    void list(ODR o, const std::string &label, const Ses &ss, const Set &s, long start, long num, const Odr_oid *syn, const std::string &esn, Z_Records **out, Odr_int *ret)
    {
        const Odr_oid *sx = syn ? syn : def_syntax(o);
        Z_NamePlusRecordList *l = record_list(o, (int) num);
        for (long i = 0; i < num; i++)
            l->records[i] = record(o, recdb ? recdb(ss, start + i) : s.dbs.empty() ? "" : s.dbs[0], sx, body(ident(label, ss), s.dbs, s.query, start + i, oid_text(sx), esn));
        *out = records(o, l); *ret = num;
    }
    void process(const std::string &label, mp::Package &p)
    {
        std::lock_guard<std::mutex> lk(m);
        unsigned long id = p.session().id(); Z_GDU *g = p.request().get();
        if (p.session().is_closed()) {
            auto it = ses.find(id);
            if (it != ses.end()) it->second.closed = true;
            return;     // whatever the package carries, the session is over
        }
        if (!g) { error("package without request on an open session"); return; }
        if (g->which != Z_GDU_Z3950) { error("request is not Z39.50"); return; }
        Z_APDU *a = g->u.z3950; Mem o; Ses &s = ses[id];
        s.requests++;
        { std::string pr = p.origin().get_address(); if (s.peer.empty()) s.peer = pr; else if (one_peer && s.peer != pr) error("a session of " + s.peer + " used for " + pr); }
        if (s.closed) { error(std::string(name(a->which)) + " on a session that was closed"); return; }
        if (seen) seen(label, p, a);
        if (!s.inited && a->which != Z_APDU_initRequest) { error(std::string(name(a->which)) + " before init"); return; }
        if (s.inited && a->which == Z_APDU_initRequest) { error("second init on a session"); return; }
        if (s.inited && s.label != label) error("session moved from " + s.label + " to " + label);
        s.label = label;
        std::string f = fault ? fault(label, s, a) : "";
        if (f == "drop") { p.session().close(); s.closed = true; p.response() = close_reply(o, a, Z_Close_systemProblem, "dropped"); return; }
        if (f == "vanish") { p.session().close(); s.closed = true; return; }
        int code = f.compare(0, 5, "diag:") == 0 ? atoi(f.c_str() + 5) : 0;
        switch (a->which) {
        case Z_APDU_initRequest: {
            Z_InitRequest *r = a->u.initRequest; s.vhosts = vhosts_of(r->otherInfo); s.auth = auth_text(r->idAuthentication); inits++;
            Z_APDU *ra = init_reply(o, a, code, code ? "refused" : 0); Z_InitResponse *rr = ra->u.initResponse;
            for (int k : {Z_Options_search, Z_Options_present, Z_Options_scan, Z_Options_delSet, Z_Options_sort}) if (ODR_MASK_GET(r->options, k)) ODR_MASK_SET(rr->options, k);
            if (named && ODR_MASK_GET(r->options, Z_Options_namedResultSets)) ODR_MASK_SET(rr->options, Z_Options_namedResultSets);
            for (int k : extra) ODR_MASK_SET(rr->options, k);
            if (code) *rr->result = 0;
            if (f == "closeinit") { p.session().close(); s.closed = true; }
            else if (!code) { s.inited = true; opened++; }
            p.response() = ra; break; }
        case Z_APDU_searchRequest: {
            searches++; Z_SearchRequest *r = a->u.searchRequest; Set st; for (int i = 0; i < r->num_databaseNames; i++) st.dbs.push_back(r->databaseNames[i]);
            st.query = query_text(r->query); std::string nm = r->resultSetName;
            if (!named && nm != "default") error("named result set " + nm + " used with a server that has none");
            Z_APDU *ra = search_reply(o, a, code, code ? "search" : 0); Z_SearchResponse *rr = ra->u.searchResponse;
            if (echo) rr->additionalSearchInfo = oi_make(o, "re:" + oi_text(r->additionalSearchInfo) + ":" + st.query);
            if (s.sets.count(nm) && !*r->replaceIndicator) { p.response() = search_reply(o, a, YAZ_BIB1_RESULT_SET_EXISTS_AND_REPLACE_INDICATOR_OFF, 0); break; }
            s.sets.erase(nm);
            if (!code) {
                st.hits = hits ? hits(ident(label, s), st.dbs, st.query) : 10; s.sets[nm] = st; *rr->resultCount = st.hits; *rr->searchStatus = 1;
                std::string esn = "-"; long num = piggyback_count(r, st.hits, esn);
                if (piggyback && num > 0) {
                    if (num > st.hits) num = st.hits;
                    if (cap) num = cap((int) num);
                    if (num > 0) { list(o, label, s, st, 1, num, r->preferredRecordSyntax, esn, &rr->records, rr->numberOfRecordsReturned); }
                }
                *rr->nextResultSetPosition = *rr->numberOfRecordsReturned < st.hits ? *rr->numberOfRecordsReturned + 1 : 0;
            }
            p.response() = ra; break; }
        case Z_APDU_presentRequest: {
            presents++; Z_PresentRequest *r = a->u.presentRequest; auto it = s.sets.find(r->resultSetId);
            if (code) { p.response() = present_reply(o, a, code, "present"); break; }
            if (it == s.sets.end()) { p.response() = present_reply(o, a, YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST, r->resultSetId); break; }
            long st = (long) *r->resultSetStartPoint, num = (long) *r->numberOfRecordsRequested;
            if (num < 0 || st < 1 || (num > 0 && (num > it->second.hits || st > it->second.hits - num + 1))) { p.response() = present_reply(o, a, YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE, 0); break; }
            if (cap) num = cap((int) num);
            Z_APDU *ra = present_reply(o, a, 0, 0); Z_PresentResponse *rr = ra->u.presentResponse;
            list(o, label, s, it->second, st, num, r->preferredRecordSyntax, esn_text(r->recordComposition), &rr->records, rr->numberOfRecordsReturned);
            *rr->nextResultSetPosition = st + num <= it->second.hits ? st + num : 0;
            p.response() = ra; break; }
        case Z_APDU_scanRequest: {
            Z_ScanRequest *r = a->u.scanRequest;
            if (code) { p.response() = scan_reply(o, a, code, "scan"); break; }
            p.response() = scan_answer(o, ident(label, s), a); (void) r; break; }
        case Z_APDU_deleteResultSetRequest: {
            Z_DeleteResultSetRequest *r = a->u.deleteResultSetRequest; Z_APDU *ra = reply(o, Z_APDU_deleteResultSetResponse, a);
            if (*r->deleteFunction == Z_DeleteResultSetRequest_all) s.sets.clear();
            else for (int i = 0; i < r->num_resultSetList; i++) s.sets.erase(r->resultSetList[i]);
            p.response() = ra; break; }
        case Z_APDU_close: p.response() = close_reply(o, a, Z_Close_finished, 0); p.session().close(); s.closed = true; break;
        default: p.response() = close_reply(o, a, Z_Close_protocolError, "unsupported"); p.session().close(); s.closed = true;
        }
    }
    // terms t<label><db>0000.. ; answer: num terms from the given one, or fewer
    std::function<Z_APDU *(ODR, const std::string &, Z_APDU *)> scan_fn;
    Z_APDU *scan_answer(ODR o, const std::string &label, Z_APDU *a)
    {
        if (scan_fn) return scan_fn(o, label, a);
        Z_ScanRequest *r = a->u.scanRequest;
        Z_APDU *ra = scan_reply(o, a, 0, 0); Z_ScanResponse *rr = ra->u.scanResponse;
        std::vector<std::string> dbs; for (int i = 0; i < r->num_databaseNames; i++) dbs.push_back(r->databaseNames[i]);
        int n = (int) *r->numberOfTermsRequested; if (n > 50) n = 50; if (n < 0) n = 0;
        rr->entries = (Z_ListEntries *) odr_malloc(o, sizeof(Z_ListEntries)); rr->entries->num_entries = n; rr->entries->num_nonsurrogateDiagnostics = 0; rr->entries->nonsurrogateDiagnostics = 0;
        rr->entries->entries = (Z_Entry **) odr_malloc(o, sizeof(Z_Entry *) * (n + 1));
        for (int i = 0; i < n; i++) {
            Z_Entry *e = rr->entries->entries[i] = (Z_Entry *) odr_malloc(o, sizeof(Z_Entry)); e->which = Z_Entry_termInfo;
            Z_TermInfo *t = e->u.termInfo = (Z_TermInfo *) odr_malloc(o, sizeof(Z_TermInfo)); memset(t, 0, sizeof *t);
            std::string s = label + "|" + join(dbs) + "|" + std::to_string(i);
            t->term = (Z_Term *) odr_malloc(o, sizeof(Z_Term)); t->term->which = Z_Term_general; t->term->u.general = odr_create_Odr_oct(o, s.data(), (int) s.size());
            t->globalOccurrences = odr_intdup(o, i + 1);
        }
        *rr->numberOfEntriesReturned = n; rr->positionOfTerm = odr_intdup(o, 1); *rr->scanStatus = Z_Scan_success;
        return ra;
    }
    int open_sessions(const std::string &peer) { int n = 0; for (auto &s : ses) n += s.second.inited && !s.second.closed && s.second.peer == peer; return n; }
    int unclosed(const std::string &peer) { int n = 0; for (auto &s : ses) n += s.second.requests && !s.second.closed && s.second.peer == peer; return n; }      // also those whose init failed
    int open_sessions() { int n = 0; for (auto &s : ses) n += s.second.inited && !s.second.closed; return n; }
};
}
#define ZK_FILTER(n) extern "C" struct metaproxy_1_filter_struct metaproxy_1_filter_##n;
