// SOURCES: kit filter_virt_db filter_multi filter_session_shared filter_load_balance filter_auth_simple filter_limit filter_present_chunk filter_http_file plainfile filter_http_rewrite html_parser filter_sru_to_z3950 sru_util filter_sort filter_record_transform filter_query_rewrite filter_cql_rpn filter_log filter_bounce filter_template filter_sd_remove filter_backend_test
// LINK: -Wl,--wrap=sleep -Wl,--wrap=yaz_retrieval_request
// A proxy runs for long: what sessions and requests took is given back when they end.
#include "../models/chains.hpp"
#include <sanitizer/allocator_interface.h>
#include <sanitizer/lsan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <libxml/xmlerror.h>
#include <libxslt/xsltutils.h>
#include <fstream>
#include <fcntl.h>
#include <sys/stat.h>
#include <malloc.h>
using namespace pbt;
using zk::Server;
extern "C" unsigned int __wrap_sleep(unsigned int) { return 0; }     // being limited need not take time here
// YAZ keeps a buffer for each call of this one: not metaproxy's
static long g_yaz;
extern "C" int __real_yaz_retrieval_request(void *, const char *, const Odr_oid *, const char **, Odr_oid **, void **, const char **, Odr_oid **);
extern "C" int __wrap_yaz_retrieval_request(void *p, const char *a, const Odr_oid *b, const char **c, Odr_oid **d, void **e, const char **f, Odr_oid **g)
{
    size_t m = __sanitizer_get_current_allocated_bytes(); int r = __real_yaz_retrieval_request(p, a, b, c, d, e, f, g); g_yaz += (long) (__sanitizer_get_current_allocated_bytes() - m); return r;
}
static void xml_quiet(void *, const char *, ...) {}
using chains::dir; using chains::Scn; using chains::scenarios; using chains::marc;
typedef std::function<Z_GDU *(ODR)> Step;
static Z_GDU *gdu(ODR o, Z_APDU *a) { Z_GDU *g = (Z_GDU *) odr_malloc(o, sizeof *g); g->which = Z_GDU_Z3950; g->u.z3950 = a; return g; }
static std::vector<Step> program(Ctx &x, bool http, std::string &text)
{
    std::vector<Step> v; int n = x.range(1, 6);
    if (http) {
        for (; n > 0; n--) {
            std::string path = x.pick({"/f/a.html", "/f/../x", "/f/none", "/A?version=1.1&operation=searchRetrieve&query=x&maximumRecords=3", "/A?version=1.1&operation=explain", "/A?version=1.1&operation=searchRetrieve&x-pquery=@and+a", "/A?version=1.1&operation=searchRetrieve&query=x+and", "/B?version=1.2&operation=searchRetrieve&query=refuse&maximumRecords=2&recordPacking=string", "/B?version=1.2&operation=searchRetrieve&query=drop", "/", "/A?version=2.0&query=a%20b&startRecord=20", "/A?operation=zork&version=1.1"}), body = x.chance(1, 4) ? "<html><a href=\"http://x/y\">" : ""; int hd = x.range(0, 2); text += path + " ";
            v.push_back([=](ODR o) { Z_GDU *g = z_get_HTTP_Request(o); Z_HTTP_Request *r = g->u.HTTP_Request; r->method = odr_strdup(o, body.empty() ? "GET" : "POST"); r->version = (char *) "1.1"; r->path = odr_strdup(o, path.c_str()); if (hd) z_HTTP_header_add(o, &r->headers, "X-A", hd == 1 ? "x.html" : ""); if (hd == 2) z_HTTP_header_add(o, &r->headers, "Authorization", "Basic dTpw"); if (!body.empty()) { r->content_buf = odr_strdup(o, body.c_str()); r->content_len = (int) body.size(); } return g; });
        }
        return v;
    }
    int auth = x.range(0, 3); bool noinit = x.chance(1, 12); std::vector<std::string> vh; if (x.coin()) vh.push_back("h1:1/X"); if (x.chance(1, 3)) vh.push_back("h2:1/Y"); std::string ref = x.str("ab", 3);
    if (!noinit) v.push_back([=](ODR o) { Z_APDU *a = zk::init(o); Z_InitRequest *r = a->u.initRequest; if (auth == 1) r->idAuthentication = zk::auth_open(o, "u/p"); if (auth == 2) r->idAuthentication = zk::auth_idpass(o, "u", "", "p"); if (auth == 3) r->idAuthentication = zk::auth_idpass(o, "u", "g", "wrong"); zk::set_vhosts(o, &r->otherInfo, vh); return gdu(o, a); });
    text += noinit ? "" : "init" + std::to_string(auth) + Server::join(vh) + " ";
    for (; n > 0; n--) {
        std::string q = x.pick({"a", "@and a b", "refuse", "drop", "vanish", "none", "\xd0\x96", "\xe2\x82\xac", "@attr 1=9999 x", "@set default", "@attr 1=4 @attr 2=3 lib", "strange"}), set = x.pick({"default", "default", "s1"}), syn = x.pick({"", "xml", "usmarc", "opac", "sutrs", "grs-1"}), esn = x.pick({"", "F", "B", "zz"}), db = x.pick({"A", "B", "Default", "C"}); int k = x.weighted({6, 7, 2, 1, 1, 1, 1}), s = x.range(1, 12), m = x.range(0, 6); bool rep = !x.chance(1, 6), more = x.chance(1, 5);
        text += std::to_string(k) + " " + q + "/" + db + "/" + syn + " ";
        v.push_back([=](ODR o) -> Z_GDU * {
            switch (k) {
            case 0: { zk::Search r; r.set = set; r.query = q; r.dbs = {db}; if (more) r.dbs.push_back("B"); r.ref = ref; r.syn = syn; r.esn_s = r.esn_m = esn; r.replace = rep; r.ssub = m; r.lslb = m + s; r.mspn = m; Z_APDU *a = zk::search(o, r); if (more && q[0] != '@') { Z_Query *z = a->u.searchRequest->query; z->which = Z_Query_type_104; Z_External *e = z->u.type_104 = (Z_External *) odr_malloc(o, sizeof *e); memset(e, 0, sizeof *e); e->direct_reference = odr_oiddup(o, yaz_oid_userinfo_cql); e->which = Z_External_CQL; e->u.cql = odr_strdup(o, q == "refuse" ? "a and" : q.c_str()); } return gdu(o, a); }
            case 1: { zk::Present r; r.set = set; r.start = s; r.num = m; r.syn = syn; r.esn = esn; r.ref = ref; return gdu(o, zk::present(o, r)); }
            case 2: { zk::Scan r; r.dbs = {db}; r.num = m; r.term = q[0] == '@' ? "x" : q; return gdu(o, zk::scan(o, r)); }
            case 3: { Z_APDU *a = zget_APDU(o, Z_APDU_deleteResultSetRequest); *a->u.deleteResultSetRequest->deleteFunction = Z_DeleteResultSetRequest_all; return gdu(o, a); }
            case 4: return gdu(o, zk::init(o)); case 5: return gdu(o, zget_APDU(o, Z_APDU_resourceReportRequest)); default: return gdu(o, zk::close(o)); }
        });
    }
    return v;
}
static void backend(Server &srv, const zk::Hook *h, zk::mp::Package &p)
{
    Z_GDU *g = p.request().get();
    if (g && g->which == Z_GDU_HTTP_Request) { zk::Mem o; Z_GDU *r = z_get_HTTP_Response(o, 200); Z_HTTP_Response *s = r->u.HTTP_Response; z_HTTP_header_add(o, &s->headers, "Content-Type", "text/html"); s->content_buf = odr_strdup(o, "<html><body><a href=\"http://abc/x\">t</a></body></html>"); s->content_len = (int) strlen(s->content_buf); p.response() = r; return; }
    // like z3950_client: what comes before the first init ends the session
    if (g && g->which == Z_GDU_Z3950 && !p.session().is_closed() && g->u.z3950->which != Z_APDU_initRequest) { bool in; { std::lock_guard<std::mutex> lk(srv.m); in = srv.ses[p.session().id()].inited; } if (!in) { zk::Mem o; p.session().close(); p.response() = zk::close_reply(o, g->u.z3950, Z_Close_protocolError, "no init"); return; } }
    srv.process(h->label, p);
    // records of the syntaxes asked for
    Z_GDU *a = p.response().get(); if (!a || a->which != Z_GDU_Z3950) return; Z_Records *rr = a->u.z3950->which == Z_APDU_presentResponse ? a->u.z3950->u.presentResponse->records : a->u.z3950->which == Z_APDU_searchResponse ? a->u.z3950->u.searchResponse->records : 0;
    if (!rr || rr->which != Z_Records_DBOSD) return; zk::Mem o; bool ch = false;
    for (int i = 0; i < rr->u.databaseOrSurDiagnostics->num_records; i++) {
        Z_NamePlusRecord *n = rr->u.databaseOrSurDiagnostics->records[i]; if (n->which != Z_NamePlusRecord_databaseRecord) continue; std::string syn = zk::oid_text(n->u.databaseRecord->direct_reference), b = "<r><k>" + std::to_string((i * 7) % 5) + "</k></r>"; ch = true;
        if (syn == zk::oid_text(yaz_oid_recsyn_opac)) { Z_OPACRecord *op = (Z_OPACRecord *) odr_malloc(o, sizeof *op); memset(op, 0, sizeof *op); std::string m = marc(); op->bibliographicRecord = z_ext_record_oid(o, yaz_oid_recsyn_usmarc, m.data(), (int) m.size()); n->u.databaseRecord = z_ext_record_oid(o, yaz_oid_recsyn_opac, (const char *) op, -1); }
        else if (syn == zk::oid_text(yaz_oid_recsyn_usmarc)) { std::string m = marc(); n->u.databaseRecord = z_ext_record_oid(o, yaz_oid_recsyn_usmarc, m.data(), (int) m.size()); }
        else n->u.databaseRecord = z_ext_record_oid(o, zk::syntax(o, "xml"), i == 3 ? "<r" : b.c_str(), i == 3 ? 2 : (int) b.size());
    }
    if (ch) { yazpp_1::GDU keep(a); p.response() = keep.get(); }
}
static int open_fds() { int n = 0; for (int i = 0; i < 200; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static void sessions(Ctx &x)
{
    xmlSetGenericErrorFunc(0, xml_quiet); xsltSetGenericErrorFunc(0, xml_quiet);
    auto all = scenarios(); const Scn &s = all[x.range(0, (int) all.size() - 1)]; std::string text; std::vector<Step> prog = program(x, s.http, text); int how = x.range(0, 2), par = x.weighted({3, 1}) ? 2 : 1; x.desc << s.name << ": " << text << (how ? " hangup" : " close") << (par > 1 ? " x2" : ""); x.nontrivial = prog.size() > 1; x.label(s.name);
    std::unique_ptr<Server> srv; 
    zk::hooks().fn = [&](const zk::Hook *h, zk::mp::Package &p) { backend(*srv, h, p); };
    struct Off { ~Off() { zk::hooks().fn = nullptr; } } off;
    zk::Net net(ALL_FILTERS, s.routes);
    const int rounds = 12; size_t mem[rounds]; int fds[rounds]; bool lasting = s.name.find("shared") != std::string::npos;   // there the server's sessions go on
    auto fresh = [&]() {
        srv.reset(new Server); srv->one_peer = false; srv->hits = [](const std::string &, const std::vector<std::string> &, const std::string &) { return 9; };
        srv->fault = [](const std::string &, Server::Ses &, Z_APDU *a) -> std::string { if (a->which != Z_APDU_searchRequest) return ""; std::string t = zk::query_text(a->u.searchRequest->query); if (t.find("refuse") != std::string::npos) return "diag:3"; if (t.find("drop") != std::string::npos) return "drop"; if (t.find("vanish") != std::string::npos) return "vanish"; return ""; };
    };
    if (lasting) fresh();
    for (int r = 0; r < rounds; r++) {
        if (!lasting) fresh();
        {
            std::vector<std::unique_ptr<zk::Client> > cs; for (int i = 0; i < par; i++) cs.emplace_back(new zk::Client(net));
            for (auto &st : prog) for (auto &c : cs) if (!c->closed) { zk::Mem o; c->send(st(o)); }
            for (auto &c : cs) { if (!how && !c->closed && !s.http) { zk::Mem o; c->send(zk::close(o)); } c->hangup(); }
        }
        if (lasting) { std::lock_guard<std::mutex> lk(srv->m); for (auto it = srv->ses.begin(); it != srv->ses.end(); ) if (it->second.closed) it = srv->ses.erase(it); else ++it; srv->errors.clear(); }
        else srv.reset();
        xmlResetLastError(); mem[r] = __sanitizer_get_current_allocated_bytes() - g_yaz; fds[r] = open_fds();
    }
    bool grows = true; for (int r = 6; r < rounds; r++) if (mem[r] <= mem[r - 1]) grows = false;
    if (grows && getenv("C23_LEAKS")) { __sanitizer_set_report_path("/tmp/lsan"); } if (grows && getenv("C23_LEAKS")) __lsan_do_recoverable_leak_check();
    if (grows) x.fail("memory grows by " + std::to_string((mem[rounds - 1] - mem[5]) / (rounds - 6)) + " bytes with each session");
    x.check(fds[rounds - 1] <= fds[5], "open files: " + std::to_string(fds[5]) + ", then " + std::to_string(fds[rounds - 1]));
}
// a configuration read and dropped leaves nothing
static void configs(Ctx &x)
{
    xmlSetGenericErrorFunc(0, xml_quiet); xsltSetGenericErrorFunc(0, xml_quiet); auto all = scenarios(); const Scn &s = all[x.range(0, (int) all.size() - 1)]; std::string routes = s.routes; bool damaged = x.chance(1, 3);
    if (damaged) { size_t i = routes.find("<filter type=", 1 + x.range(0, 3)); if (i != std::string::npos) { i = routes.find('>', i); routes.insert(i + 1, x.pick({"<zork/>", "<zork a=\"b\"/>", "<filter type=\"none\"/>"})); } }
    x.desc << s.name << (damaged ? " damaged" : ""); x.nontrivial = true; x.label(s.name); const int rounds = 12; size_t mem[rounds]; int fds[rounds];
    for (int r = 0; r < rounds; r++) {
        try { zk::Net net(ALL_FILTERS, routes); }
        catch (std::exception &) { x.label("refused"); }
        xmlResetLastError(); mem[r] = __sanitizer_get_current_allocated_bytes() - g_yaz; fds[r] = open_fds();
    }
    bool grows = true; for (int r = 6; r < rounds; r++) if (mem[r] <= mem[r - 1]) grows = false;
    if (grows && getenv("C23_LEAKS")) { __sanitizer_set_report_path("/tmp/lsan"); } if (grows && getenv("C23_LEAKS")) __lsan_do_recoverable_leak_check();
    if (grows) x.fail("memory grows by " + std::to_string((mem[rounds - 1] - mem[5]) / (rounds - 6)) + " bytes with each reading of the configuration");
    x.check(fds[rounds - 1] <= fds[5], "open files: " + std::to_string(fds[5]) + ", then " + std::to_string(fds[rounds - 1]));
}
int main(int argc, char **argv)
{
    zk::quiet();
    Check c; c.id = "C23";
    c.add("sessions", 6000, 60000, "a session of more than one request", sessions)
     .add("configs", 400, 4000, "all", configs);
    return run(c, argc, argv);
}
