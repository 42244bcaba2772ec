// SOURCES: kit filter_virt_db filter_multi filter_session_shared filter_load_balance filter_auth_simple filter_limit filter_present_chunk filter_http_file plainfile filter_http_rewrite html_parser filter_sru_to_z3950 sru_util filter_sort filter_record_transform filter_query_rewrite filter_cql_rpn filter_log filter_bounce filter_template filter_sd_remove filter_backend_test
// FLAGS: -fno-sanitize=signed-integer-overflow
// LINK: -Wl,--wrap=sleep
// No request and no answer, however odd, takes the proxy down or spoils it for others.
#include "../models/chains.hpp"
#include "../models/anyz.hpp"
#include <fstream>
#include <fcntl.h>
#include <sys/wait.h>
#include <libxml/xmlerror.h>
#include <libxslt/xsltutils.h>
using namespace pbt;
using zk::Server; using chains::Scn;
extern "C" unsigned int __wrap_sleep(unsigned int) { return 0; }
static void xml_quiet(void *, const char *, ...) {}
static const int REQ[] = {Z_APDU_searchRequest, Z_APDU_presentRequest, Z_APDU_initRequest, Z_APDU_scanRequest, Z_APDU_deleteResultSetRequest, Z_APDU_sortRequest, Z_APDU_close, Z_APDU_extendedServicesRequest, Z_APDU_accessControlRequest, Z_APDU_resourceControlRequest, Z_APDU_triggerResourceControlRequest, Z_APDU_resourceReportRequest, Z_APDU_segmentRequest, Z_APDU_duplicateDetectionRequest, Z_APDU_accessControlResponse, Z_APDU_resourceControlResponse, Z_APDU_searchResponse};
static const int RES[] = {Z_APDU_searchResponse, Z_APDU_presentResponse, Z_APDU_initResponse, Z_APDU_scanResponse, Z_APDU_deleteResultSetResponse, Z_APDU_sortResponse, Z_APDU_close, Z_APDU_extendedServicesResponse, Z_APDU_accessControlRequest, Z_APDU_resourceControlRequest, Z_APDU_segmentRequest, Z_APDU_duplicateDetectionResponse, Z_APDU_resourceReportResponse, Z_APDU_accessControlResponse, Z_APDU_searchRequest};
// what the server does with a request: 0 as it should, 1 an odd answer of the right type, 2 of any type, 3 none, 4 ends the session
struct Plan { int mode; uint64_t seed; };
static std::string http_odd(Ctx &x)
{
    return x.pick({"/f/a.html", "/f/%00", "/f/..%2f..", "/", "", "//", "/A?version=1.1&operation=searchRetrieve&query=x&maximumRecords=3", "/A?version=1.1&operation=explain", "/A?version=1.1&operation=scan&scanClause=x", "/A?version=1.1&operation=searchRetrieve&x-pquery=@and+a", "/A?query=%ff%fe&version=1.1&operation=searchRetrieve", "/A?version=1.2&operation=searchRetrieve&query=x&startRecord=-1&maximumRecords=99999999999", "/?&&&==", "/A?operation=", "*", "http://a/b", "/A%?%", "/A,B+C?version=1.1&operation=searchRetrieve&query=x&recordSchema=zz&recordPacking=xml", "/f/a.html?x=http://x/y"});
}
static Z_GDU *http_request(Ctx &x, ODR o)
{
    Z_GDU *g = z_get_HTTP_Request(o); Z_HTTP_Request *r = g->u.HTTP_Request; r->method = odr_strdup(o, x.pick({"GET", "POST", "HEAD", "OPTIONS", "", "get", "PUT"}).c_str()); r->version = odr_strdup(o, x.pick({"1.1", "1.0", "", "9"}).c_str()); r->path = odr_strdup(o, http_odd(x).c_str());
    for (int n = x.range(0, 3); n > 0; n--) z_HTTP_header_add(o, &r->headers, x.pick({"Content-Type", "Authorization", "X-A", "Host", "Connection", "X-Forwarded-For", "Cookie", "Accept-Encoding", "SOAPAction", "X-Metaproxy-SkipLink"}).c_str(), x.pick({"", "text/xml", "application/x-www-form-urlencoded", "Basic dTpw", "Basic !!!", "Basic", "x.html", "close", "1.2.3.4, 5.6.7.8", "text/html; charset=x"}).c_str());
    if (x.chance(1, 3)) { std::string b = x.pick({"version=1.1&operation=searchRetrieve&query=a", "<x", "<e:Envelope xmlns:e=\"http://schemas.xmlsoap.org/soap/envelope/\"><e:Body><s:searchRetrieveRequest xmlns:s=\"http://www.loc.gov/zing/srw/\"><s:version>1.1</s:version><s:query>x</s:query></s:searchRetrieveRequest></e:Body></e:Envelope>", "<e:Envelope xmlns:e=\"http://schemas.xmlsoap.org/soap/envelope/\"><e:Body/></e:Envelope>", "\x01\x02"}); r->content_buf = odr_strdup(o, b.c_str()); r->content_len = (int) b.size(); }
    return g;
}
static Z_GDU *http_response(Ctx &x, ODR o)
{
    Z_GDU *g = z_get_HTTP_Response(o, x.pick({200, 404, 302, 500, 304, 100, 0, -1})); Z_HTTP_Response *r = g->u.HTTP_Response; for (int n = x.range(0, 3); n > 0; n--) z_HTTP_header_add(o, &r->headers, x.pick({"Content-Type", "Location", "Set-Cookie", "X-A", "Content-Encoding"}).c_str(), x.pick({"text/html", "text/html;charset=x", "", "http://abc/x", "text/xml", "a=b; path=/"}).c_str());
    std::string b = x.pick({"", "<html><a href=\"http://abc/x\">t</a></html>", "<a href=", "<a href='", "<!--", "<script>", "</", "<", "<a href=http://q", "\xff\xfe<a>", "<?x", "<!DOCTYPE"}); if (x.chance(1, 10)) b = std::string(3000, '<'); if (!b.empty()) { r->content_buf = (char *) odr_malloc(o, b.size() + 1); memcpy(r->content_buf, b.c_str(), b.size() + 1); r->content_len = (int) b.size(); } return g;
}
struct World {
    Server srv; std::mutex m; std::vector<Plan> plan; size_t next = 0; int odd_answers = 0;
    World() { srv.one_peer = false; srv.hits = [](const std::string &, const std::vector<std::string> &, const std::string &) { return 9; }; }
    void process(const zk::Hook *h, zk::mp::Package &p)
    {
        Z_GDU *g = p.request().get(); Plan pl{0, 0}; { std::lock_guard<std::mutex> lk(m); if (next < plan.size() && !p.session().is_closed()) pl = plan[next++]; }
        if (g && g->which == Z_GDU_HTTP_Request) { zk::Mem o; if (pl.mode == 3) return; if (pl.mode) { odd_answers++; Src s(pl.seed); Ctx y(s); p.response() = http_response(y, o); return; } Z_GDU *r = z_get_HTTP_Response(o, 200); z_HTTP_header_add(o, &r->u.HTTP_Response->headers, "Content-Type", "text/html"); r->u.HTTP_Response->content_buf = (char *) "<a href=\"http://abc/x\">t</a>"; r->u.HTTP_Response->content_len = 28; p.response() = r; return; }
        if (!g || g->which != Z_GDU_Z3950 || p.session().is_closed()) { srv.process(h->label, p); return; }
        Z_APDU *a = g->u.z3950; if (a->which != Z_APDU_initRequest) { bool in; { std::lock_guard<std::mutex> lk(srv.m); in = srv.ses[p.session().id()].inited; } if (!in) { zk::Mem o; p.session().close(); p.response() = zk::close_reply(o, a, Z_Close_protocolError, "no init"); return; } }
        else { bool in; { std::lock_guard<std::mutex> lk(srv.m); in = srv.ses[p.session().id()].inited; } if (in) { zk::Mem o; p.response() = zk::init_reply(o, a, 0, 0); return; } }
        int rt = zk::response_type(a->which);
        if (!pl.mode && !rt) { zk::Mem o; p.session().close(); p.response() = zk::close_reply(o, a, Z_Close_protocolError, "?"); return; }
        if (!pl.mode) { srv.process(h->label, p); return; }
        if (pl.mode == 3) return; if (pl.mode == 4) { p.session().close(); std::lock_guard<std::mutex> lk(srv.m); srv.ses[p.session().id()].closed = true; return; }
        Src s(pl.seed); Ctx y(s); zk::Mem o; int w = pl.mode == 1 && rt ? rt : RES[y.weighted({4, 4, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1})]; Z_GDU *r = anyz::z3950(y, o, w, true); if (!r) { srv.process(h->label, p); return; }
        { std::lock_guard<std::mutex> lk(srv.m); odd_answers++; if (a->which == Z_APDU_initRequest && r->u.z3950->which == Z_APDU_initResponse) { Server::Ses &ss = srv.ses[p.session().id()]; ss.inited = true; ss.label = h->label; ss.vhosts = zk::vhosts_of(a->u.initRequest->otherInfo); ss.auth = zk::auth_text(a->u.initRequest->idAuthentication); } }
        p.response() = r;
    }
};
// a session as it should be; what it got
static std::string normal(zk::Net &net, const std::string &name, bool http, int variant)
{
    std::string r; zk::Client c(net);
    auto put = [&](Z_GDU *g) { if (!g) r += "(none)"; else if (g->which == Z_GDU_HTTP_Response) r += std::to_string(g->u.HTTP_Response->code) + ":" + std::string(g->u.HTTP_Response->content_buf ? g->u.HTTP_Response->content_buf : "", g->u.HTTP_Response->content_len); else r += zk::print(g); if (c.closed) r += " closed"; r += "\n"; };
    if (http) {
        for (const char *path : {"/f/a.html", "/Zq?version=1.1&operation=searchRetrieve&query=x&maximumRecords=2", "/x"}) { zk::Mem o; Z_GDU *g = z_get_HTTP_Request(o); g->u.HTTP_Request->path = (char *) path; z_HTTP_header_add(o, &g->u.HTTP_Request->headers, "Host", "localhost"); put(c.send(g)); if (c.closed) break; }
        return r;
    }
    { zk::Mem o; Z_APDU *a = zk::init(o); Z_InitRequest *q = a->u.initRequest; q->idAuthentication = zk::auth_open(o, "u/p"); q->implementationId = (char *) "normal"; q->otherInfo = 0; std::vector<std::string> v; if (name.find("multi") == std::string::npos && name.find("virt") == std::string::npos) v.push_back("h9:" + std::to_string(variant)); zk::set_vhosts(o, &q->otherInfo, v); put(c.send(a)); }
    for (int i = 0; i < 4 && !c.closed; i++) { zk::Mem o; if (i % 2 == 0) { zk::Search s; s.dbs = {i && name != "backend_test" ? "B" : "A"}; s.query = "zq" + std::to_string(i); s.set = "default"; s.syn = "xml"; put(c.send(zk::search(o, s))); } else { zk::Present s; s.start = 2; s.num = 3; s.syn = "xml"; put(c.send(zk::present(o, s))); } }
    return r;
}
static std::string kind(Z_GDU *g) { return !g ? "none" : g->which == Z_GDU_Z3950 ? zk::name(g->u.z3950->which) : "HTTP"; }
static void odd(Ctx &x)
{
    xmlSetGenericErrorFunc(0, xml_quiet); xsltSetGenericErrorFunc(0, xml_quiet);
    auto all = chains::scenarios(); const Scn &s = all[x.range(0, (int) all.size() - 1)]; World w; int np = x.range(0, 12), hostile = x.range(0, 2);
    for (int i = 0; i < np; i++) { Plan p; p.mode = hostile == 0 ? 0 : x.weighted({hostile == 1 ? 6 : 2, 6, 1, 1, 1}); p.seed = (uint64_t) x.range(0, 1 << 20); w.plan.push_back(p); }
    int nc = x.weighted({3, 1}) + 1, variant = x.range(0, 3);
    zk::hooks().fn = [&](const zk::Hook *h, zk::mp::Package &p) { w.process(h, p); }; struct Off { ~Off() { zk::hooks().fn = nullptr; } } off;
    x.desc << s.name << ":"; x.label(s.name); int sent = 0;
    {
        zk::Net net(ALL_FILTERS, s.routes);
        {
            std::vector<std::unique_ptr<zk::Client> > cs; for (int i = 0; i < nc; i++) cs.emplace_back(new zk::Client(net));
            for (int n = x.range(1, 9); n > 0; n--) {
                zk::Client &c = *cs[x.range(0, nc - 1)]; if (c.closed) continue;
                zk::Mem o; Z_GDU *g = 0; bool h = s.http ? !x.chance(1, 5) : x.chance(1, 15), od = !x.chance(1, 3);
                if (h) g = http_request(x, o); else { int t = sent == 0 && !x.chance(1, 6) ? 2 : x.weighted({8, 8, 3, 3, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}); g = anyz::z3950(x, o, REQ[t], od && !(sent == 0 && x.coin())); }
                if (!g) continue; sent++; x.desc << " " << kind(g);
                Z_GDU *r = c.send(g); x.desc << "->" << kind(r) << (c.closed ? "!" : "");
                // what comes back can be sent to the client
                if (r) { if (zk::encode(r).empty()) x.fail("the answer cannot be encoded"); }
            }
        }
        { std::lock_guard<std::mutex> lk(w.m); w.plan.clear(); }
        std::string got = normal(net, s.name, s.http, variant), want; World w2;
        zk::hooks().fn = [&](const zk::Hook *h, zk::mp::Package &p) { w2.process(h, p); };
        { zk::Net fresh(ALL_FILTERS, s.routes); want = normal(fresh, s.name, s.http, variant); }
        zk::hooks().fn = [&](const zk::Hook *h, zk::mp::Package &p) { w.process(h, p); };
        x.nontrivial = sent > 1; if (w.odd_answers) x.label("odd answers");
        x.eq(got, want, "a session after the odd ones");
    }
}
// What is known to be wrong with backend_test, each shown by the input listed in known-findings.txt.
static bool listed(const std::string &key) { std::ifstream f((std::string(getenv("PBT_HOME")) + "/known-findings.txt")); std::string l; while (std::getline(f, l)) if (l.find("known: property=C25 " + key) == 0) return true; return false; }
static void known(Ctx &x)
{
    int k = x.range(0, 3); std::string key = std::vector<std::string>{"backend_test present number=-100000", "backend_test element set FF-1", "backend_test named result sets of another session", "backend_test present start=2147483647"}[k]; x.desc << key; x.nontrivial = true;
    int pid = fork();
    if (!pid) {
        int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); alarm(10); chains::Guard::off() = true; bool ok = true;
        zk::Net net({&metaproxy_1_filter_backend_test}, zk::route("start", "<filter type=\"backend_test\"/>")); zk::Client c(net), d(net);
        { zk::Mem o; Z_APDU *a = zk::init(o); ODR_MASK_CLEAR(a->u.initRequest->options, Z_Options_namedResultSets); c.send(a); }
        if (k == 2) { zk::Mem o; Z_APDU *a = zk::init(o); ODR_MASK_SET(a->u.initRequest->options, Z_Options_namedResultSets); d.send(a); zk::Mem o2; zk::Search s; s.set = "named"; s.dbs = {"Default"}; s.query = "a"; Z_GDU *g = c.send(zk::search(o2, s)); ok = g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_searchResponse && g->u.z3950->u.searchResponse->records; }
        else { zk::Mem o, o2; zk::Search s; s.dbs = {"Default"}; s.query = "a"; c.send(zk::search(o, s)); zk::Present r; r.start = k == 3 ? 2147483647 : 1; r.num = k == 1 ? 1 : k ? 10 : -100000; r.syn = k == 1 ? "xml" : "usmarc"; if (k == 1) r.esn = "FF-1"; Z_GDU *g = c.send(zk::present(o2, r)); ok = g && zk::encode(g).size() && (k == 1 || (g->u.z3950->which == Z_APDU_presentResponse && g->u.z3950->u.presentResponse->records && g->u.z3950->u.presentResponse->records->which == Z_Records_NSD)); }
        _exit(ok ? 0 : 1);
    }
    int st; waitpid(pid, &st, 0); if (WIFEXITED(st) && !WEXITSTATUS(st)) return;
    if (listed(key)) known_finding(key); else x.fail(key);
}
int main(int argc, char **argv)
{
    zk::quiet();
    Check c; c.id = "C25";
    c.add("odd", 20000, 400000, "at least two requests got in", odd);
    c.add("known", 24, 24, "all", known, false);
    return run(c, argc, argv);
}
