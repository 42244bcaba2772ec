// Chains of the filters that need no network, for checks that hold for all of them.
// SOURCES of a check that uses it: see checks/C23.cpp
#pragma once
#include "zkit.hpp"
#include <fstream>
#include <sys/stat.h>
ZK_FILTER(virt_db) ZK_FILTER(multi) ZK_FILTER(session_shared) ZK_FILTER(load_balance) ZK_FILTER(auth_simple) ZK_FILTER(limit) ZK_FILTER(present_chunk) ZK_FILTER(http_file) ZK_FILTER(http_rewrite) ZK_FILTER(sru_z3950) ZK_FILTER(sort) ZK_FILTER(record_transform) ZK_FILTER(query_rewrite) ZK_FILTER(cql_rpn) ZK_FILTER(log) ZK_FILTER(bounce) ZK_FILTER(template) ZK_FILTER(sd_remove) ZK_FILTER(backend_test)
// Stands before backend_test, a filter that counts as test code and cannot be
// repaired here, and answers itself what is listed as a known finding of it.
namespace chains {
struct Guard : zk::mp::filter::Base {
    static bool &off() { static bool b; return b; }
    mutable std::mutex m; mutable std::set<unsigned long> named;
    void configure(const xmlNode *, bool, const char *) {}
    static bool bad_esn(const std::string &e) { return e.compare(0, 2, "FF") == 0 && (atol(e.c_str() + 2) < 0 || atol(e.c_str() + 2) > 100000); }
    void process(zk::mp::Package &p) const {
        Z_GDU *g = p.request().get(); unsigned long id = p.session().id(); std::lock_guard<std::mutex> l(m);
        if (g && g->which == Z_GDU_Z3950 && !off()) {
            Z_APDU *a = g->u.z3950; zk::Mem o;
            if (a->which == Z_APDU_initRequest) { if (ODR_MASK_GET(a->u.initRequest->options, Z_Options_namedResultSets)) named.insert(id); else named.erase(id); }
            if (a->which == Z_APDU_presentRequest) {
                Z_PresentRequest *r = a->u.presentRequest; Odr_int s = *r->resultSetStartPoint, n = *r->numberOfRecordsRequested;
                if (s < 1 || s > 43 || n < 0 || n > 43 - s) { p.response() = zk::present_reply(o, a, 13, 0); return; }
                if (bad_esn(zk::esn_text(r->recordComposition))) { p.response() = zk::present_reply(o, a, 25, 0); return; }
            }
            if (a->which == Z_APDU_searchRequest) {
                Z_SearchRequest *r = a->u.searchRequest; bool bad = false; for (auto *e : {r->smallSetElementSetNames, r->mediumSetElementSetNames}) if (e && e->which == Z_ElementSetNames_generic && bad_esn(e->u.generic)) bad = true;
                if (bad) { p.response() = zk::search_reply(o, a, 25, 0); return; }
                if (!named.count(id) && strcmp(r->resultSetName, "default")) { p.response() = zk::search_reply(o, a, 22, 0); return; }
            }
        }
        p.move(); if (p.session().is_closed()) named.erase(id);
    }
    static zk::mp::filter::Base *make() { return new Guard; }
};
static struct metaproxy_1_filter_struct guard_type = {0, "bt_guard", Guard::make};
}
#define ALL_FILTERS {&chains::guard_type, &metaproxy_1_filter_virt_db, &metaproxy_1_filter_multi, &metaproxy_1_filter_session_shared, &metaproxy_1_filter_load_balance, &metaproxy_1_filter_auth_simple, &metaproxy_1_filter_limit, &metaproxy_1_filter_present_chunk, &metaproxy_1_filter_http_file, &metaproxy_1_filter_http_rewrite, &metaproxy_1_filter_sru_z3950, &metaproxy_1_filter_sort, &metaproxy_1_filter_record_transform, &metaproxy_1_filter_query_rewrite, &metaproxy_1_filter_cql_rpn, &metaproxy_1_filter_log, &metaproxy_1_filter_bounce, &metaproxy_1_filter_template, &metaproxy_1_filter_sd_remove, &metaproxy_1_filter_backend_test}
namespace chains {
inline const std::string &dir()
{
    static std::string d; static pid_t pid = 0; if (pid == getpid()) return d;
    pid = getpid(); d = pbt::scratch() + "/m" + std::to_string(pid); mkdir(d.c_str(), 0755); mkdir((d + "/www").c_str(), 0755);
    std::string xsl = "<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\"><xsl:template match=\"@*|node()\"><xsl:copy><xsl:apply-templates select=\"@*|node()\"/></xsl:copy></xsl:template></xsl:stylesheet>";
    std::ofstream(d + "/id.xsl") << xsl; std::ofstream(d + "/cql.txt") << "set = info:srw/cql-context-set/1/cql-v1.1\nset.cql = info:srw/cql-context-set/1/cql-v1.1\nindex.cql.serverChoice = 1=1016\nrelation.scr = 2=3\nrelation.eq = 2=3\n"; std::ofstream(d + "/users") << "u:p:A,B,Default\nnobody:x:A\nanonymous::A,B,Default\n"; std::ofstream(d + "/www/a.html") << "<html><a href=\"http://x/y\">x</a></html>"; return d;
}
struct Scn { std::string name, routes; bool http; };
inline std::vector<Scn> scenarios()
{
    auto R = [](const std::string &f) { return zk::route("start", f + zk::hook("b")); }; std::string d = dir();
    auto T = [](const std::string &t, const std::string &body = "") { return "<filter type=\"" + t + "\">" + body + "</filter>"; };
    std::string ri = "<retrievalinfo xmlns=\"http://indexdata.com/yaz\"><retrieval syntax=\"opac\"><backend syntax=\"opac\"><marc inputformat=\"marc\" outputformat=\"marcxml\" inputcharset=\"marc-8\" outputcharset=\"marc-8\"/></backend></retrieval><retrieval syntax=\"usmarc\" name=\"F\"/><retrieval syntax=\"xml\"><backend syntax=\"xml\"><xslt stylesheet=\"" + d + "/id.xsl\"/></backend></retrieval><retrieval syntax=\"sutrs\"><backend syntax=\"xml\"><marc inputformat=\"marc\" outputformat=\"marcxml\" inputcharset=\"marc-8\"/></backend></retrieval></retrievalinfo>";
    std::string vd = "<virtual><database>A</database><target>h1:1/X</target></virtual><virtual route=\"r1\"><database>B</database><target>h2:1/Y+Z</target></virtual><virtual><database>D*</database><target>h1:1/X</target><target>h3/W</target></virtual>";
    std::string rw = "<request><rule name=\"u\"><rewrite from=\"^(?&lt;p&gt;.*)html\" to=\"${p}htm\"/></rule><content type=\"headers\"><within header=\"X-A\" rule=\"u\"/><within reqline=\"1\" rule=\"u\"/></content></request><response><rule name=\"l\"><rewrite from=\"http://(?&lt;h&gt;[a-z]+)\" to=\"https://${h}.org\"/></rule><content type=\"html\" mime=\"text/html.*\"><within tag=\"a\" attr=\"href\" rule=\"l\"/></content></response>";
    return {
        {"none", R(""), false}, {"virt_db", R(T("virt_db", vd)) + zk::route("r1", zk::hook("r1")), false}, {"multi", R(T("virt_db", vd) + T("multi")) + zk::route("r1", zk::hook("r1")), false}, {"session_shared", R(T("session_shared")), false}, {"shared over multi", R(T("virt_db", vd) + T("session_shared", "<resultset ttl=\"5\" max=\"2\"/>")) + zk::route("r1", zk::hook("r1")), false},
        {"load_balance", R(T("load_balance")), false}, {"auth_simple", R(T("auth_simple", "<userRegister>" + d + "/users</userRegister>")), false}, {"limit", R(T("limit", "<limit bandwidth=\"100000\" pdu=\"3\" search=\"2\" retrieve=\"3\"/>")), false}, {"present_chunk", R(T("present_chunk", "<chunk>2</chunk>")), false},
        {"sort", R(T("sort", "<sort xpath=\"//k\" prefetch=\"5\"/>")), false}, {"record_transform", R(T("record_transform", ri)), false}, {"query_rewrite", R(T("query_rewrite", "<xslt stylesheet=\"" + d + "/id.xsl\"/><charset to=\"iso-8859-5\"/>")), false}, {"cql_rpn", R(T("cql_rpn", "<conversion file=\"" + d + "/cql.txt\"/>")), false}, {"rpn_cql", R(T("cql_rpn", "<conversion file=\"" + d + "/cql.txt\" reverse=\"1\"/>")), false},
        {"log", R(T("log", "<filename>/dev/null</filename><category line=\"true\" access=\"true\" user-access=\"true\" apdu=\"true\" session=\"true\" init-options=\"true\"/>")), false}, {"bounce", zk::route("start", T("bounce")), false}, {"template sd_remove", R(T("template") + T("sd_remove")), false}, {"backend_test", zk::route("start", T("bt_guard") + T("backend_test")), false}, {"chunk over backend_test", zk::route("start", T("present_chunk", "<chunk>2</chunk>") + T("sort", "<sort xpath=\"//x\"/>") + T("bt_guard") + T("backend_test")), false},
        {"http_file", R(T("http_file", "<mimetypes>/dev/null</mimetypes><area><documentroot>" + d + "/www</documentroot><prefix>/f</prefix></area>")), true}, {"http_rewrite", R(T("http_rewrite", rw)), true}, {"sru_z3950", R(T("sru_z3950", "<database name=\"A\"><explain xmlns=\"http://explain.z3950.org/dtd/2.0/\"><t>d</t></explain></database>")), true}, {"sru over cql_rpn", R(T("sru_z3950") + T("cql_rpn", "<conversion file=\"" + d + "/cql.txt\"/>")), true}, {"http log", R(T("log", "<filename>/dev/null</filename><category line=\"true\" user-access=\"true\" apdu=\"true\"/>")), true}, {"http bounce", zk::route("start", T("bounce")), true}};
}
inline std::string marc() { return "00065nam a2200049 a 4500001000200000245000600002\x1e" "1\x1e" "10\x1f" "ab\x1e\x1d"; }
}
