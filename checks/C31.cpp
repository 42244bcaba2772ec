// SOURCES: kit filter_bounce filter_sd_remove filter_template filter_zeerex_explain sru_util
// VARIANTS: asan tsan
// The end of a route, records in place of diagnostics, and static explain records.
#include "../models/zkit.hpp"
#include "../models/anyz.hpp"
#include <atomic>
#include <thread>
ZK_FILTER(bounce) ZK_FILTER(sd_remove) ZK_FILTER(template) ZK_FILTER(zeerex_explain)
using namespace pbt;
using zk::Mem;
static std::string num(long n) { return std::to_string(n); }
static void need(bool ok, const std::string &m) { if (!ok) throw Fail(m); }
static void same(const std::string &a, const std::string &b, const std::string &w) { if (a != b) throw Fail(w + ": got <" + q(a.substr(0, 400)) + "> expected <" + q(b.substr(0, 400)) + ">"); }
static std::string bytes(Ctx &x, int n) { std::string r; unsigned s = x.range(0, 1000); for (int i = 0; i < n; i++) { s = s * 1103515245u + 12345; r += (char) (s >> 16); } return r; }
struct Hooks { ~Hooks() { zk::hooks().fn = nullptr; } };
static std::string header(Z_HTTP_Header *h, const char *n) { const char *v = z_HTTP_header_lookup(h, n); return v ? v : "-"; }
static Z_GDU *http(Ctx &x, ODR o, const std::string &path) { Z_GDU *g = z_get_HTTP_Request(o); Z_HTTP_Request *h = g->u.HTTP_Request; h->method = odr_strdup(o, x.pick({"GET", "POST", "PUT"}).c_str()); h->path = odr_strdup(o, path.c_str()); h->version = odr_strdup(o, x.pick({"1.0", "1.1"}).c_str()); if (x.coin()) z_HTTP_header_add(o, &h->headers, "Host", "h.org:80"); if (x.coin()) z_HTTP_header_add(o, &h->headers, "X-Y", x.pick({"", "a: b", "\xc3\xa6"}).c_str()); if (x.chance(1, 4)) z_HTTP_header_add(o, &h->headers, "Connection", x.pick({"close", "Keep-Alive"}).c_str()); if (x.coin()) { std::string b = bytes(x, x.pick<int>({1, 20, 3000})); h->content_buf = odr_strdupn(o, b.data(), b.size()); h->content_len = (int) b.size(); } return g; }
// ---- bounce
static void bounce(Ctx &x)
{
    Hooks h; std::atomic<int> on{0}; zk::hooks().fn = [&](const zk::Hook *, zk::mp::Package &p) { if (!p.session().is_closed()) on++; else if (p.request().get()) on++; };
    int e = x.range(0, 3); std::string conf = e == 0 ? "" : e == 1 ? "<echo/>" : e == 2 ? "<echo>1</echo>" : "<echo>0</echo>"; if (e == 1) conf = "<echo>true</echo>"; zk::Net net({&metaproxy_1_filter_bounce}, zk::route("start", "<filter type=\"bounce\">" + conf + "</filter>" + zk::hook("rest"))); x.desc << conf;
    int n = x.range(1, 3); for (int i = 0; i < n; i++) {
        zk::Client cl(net); Mem o; int k = x.range(0, 3);
        if (k < 2) { Z_GDU *g = http(x, o, x.pick({"/", "/a?b=c", "/%00", "x"})); std::string was = zk::encode(g); x.desc << " http " << q(was.substr(0, 200)); Z_GDU *a = cl.send(g); need(a && a->which == Z_GDU_HTTP_Response, "no HTTP answer"); Z_HTTP_Response *r = a->u.HTTP_Response; same(num(r->code), "400", "code"); std::string b(r->content_buf ? r->content_buf : "", r->content_len); if (e == 1 || e == 2) { same(b, was, "echo"); same(header(r->headers, "Content-Type"), "text/plain", "type of the echo"); } else need(b.find("X-Y") == std::string::npos, "echo not asked for"); x.label("http"); }
        else { static const int types[] = {Z_APDU_initRequest, Z_APDU_searchRequest, Z_APDU_presentRequest, Z_APDU_deleteResultSetRequest, Z_APDU_scanRequest, Z_APDU_sortRequest, Z_APDU_extendedServicesRequest, Z_APDU_close}; Z_GDU *g = anyz::z3950(x, o, types[x.range(0, 7)], x.coin()); if (!g) g = anyz::wrap(o, zk::init(o)); Z_APDU *a = g->u.z3950; x.desc << " apdu " << a->which; std::string ref = zk::get_ref(a); int which = a->which; Z_GDU *v = cl.send(a); need(v && v->which == Z_GDU_Z3950 && v->u.z3950->which == Z_APDU_close, "no Close"); Z_Close *c = v->u.z3950->u.close; same(num((long) *c->closeReason), num(Z_Close_systemProblem), "reason"); same(std::string(c->diagnosticInformation ? c->diagnosticInformation : "").substr(0, 12), "BOUNCE Z3950", "text"); if (which != Z_APDU_close) same(zk::get_ref(v->u.z3950), ref, "reference"); x.label("z3950"); }
        need(cl.closed, "the session is still open"); x.check(!on, "the request went on");
    }
    x.nontrivial = true;
}
// ---- sd_remove
static Z_NamePlusRecord *sur(ODR o, const std::string &db, int code, const char *add) { Z_NamePlusRecord *n = (Z_NamePlusRecord *) odr_malloc(o, sizeof *n); n->databaseName = db.empty() ? 0 : odr_strdup(o, db.c_str()); n->which = Z_NamePlusRecord_surrogateDiagnostic; n->u.surrogateDiagnostic = zget_DiagRec(o, code, add); return n; }
static void surrogates(Ctx &x)
{
    Hooks h; int n = x.range(1, 4); std::string plan; std::vector<std::string> got, want; int removed = 0;
    // the answer of the server is made twice, once as it is and once as it is to come out
    std::string chain; if (x.coin()) chain += "<filter type=\"template\"/>"; chain += "<filter type=\"sd_remove\"/>"; if (x.coin()) chain += "<filter type=\"template\"/>"; if (x.chance(1, 5)) chain += "<filter type=\"sd_remove\"/>";
    Z_APDU *back = 0; std::string seen; zk::hooks().fn = [&](const zk::Hook *, zk::mp::Package &p) { if (p.session().is_closed() || !p.request().get()) return; seen = zk::encode(p.request().get()); if (back) p.response() = back; };
    zk::Net net({&metaproxy_1_filter_sd_remove, &metaproxy_1_filter_template}, zk::route("start", chain + zk::hook("rest"))); zk::Client cl(net);
    for (int i = 0; i < n; i++) {
        Mem o; int k = x.range(0, 9); Z_APDU *q = k < 5 ? zk::present(o, zk::Present()) : zk::search(o, zk::Search()), *a = 0, *b = 0; std::string ref = x.coin() ? "r" + num(i) : ""; zk::set_ref(o, q, ref);
        if (k == 9) { a = x.coin() ? zk::scan_reply(o, q, 4, "z") : zk::close_reply(o, q, 3, "bye"); b = a; x.desc << " other"; }
        else if (k == 8) { a = zk::search_reply(o, q, 114, "x"); b = a; x.desc << " failed search"; }
        else if (k == 4) { a = zk::present_reply(o, q, 13, "x"); b = a; x.desc << " failed present"; }
        else {
            int m = x.range(0, 5); a = k < 4 ? zk::present_reply(o, q, 0, 0) : zk::search_reply(o, q, 0, 0); b = k < 4 ? zk::present_reply(o, q, 0, 0) : zk::search_reply(o, q, 0, 0); Z_NamePlusRecordList *l[2] = {zk::record_list(o, m), zk::record_list(o, m)}; x.desc << (k < 4 ? " present" : " search");
            for (int j = 0; j < m; j++) { std::string db = x.pick({"", "D", "E e"}); int t = x.range(0, 5); x.desc << " " << t;
                if (t < 2) { std::string body = "<r>" + num(j) + "</r>", s = x.pick({"xml", "usmarc", "sutrs"}); for (auto z : l) z->records[j] = zk::record(o, db, zk::syntax(o, s), body); if (s == "sutrs") for (auto z : l) z->records[j]->u.databaseRecord = z_ext_record_sutrs(o, body.data(), body.size()); }
                else { removed++; std::string text; int code = x.pick<int>({1, 2, 14, 238, 1005, 99999, 0}); std::string add = x.pick({"", "x", "a b -- c\nd", "\xc3\xa6%s%n"}); if (t < 5) { bool none = x.coin(); l[0]->records[j] = sur(o, db, code, none ? 0 : add.c_str()); if (x.coin() && !none) { Z_DefaultDiagFormat *f = l[0]->records[j]->u.surrogateDiagnostic->u.defaultFormat; f->which = Z_DefaultDiagFormat_v3Addinfo; f->u.v3Addinfo = odr_strdup(o, add.c_str()); } text = " ERROR " + num(code) + ": " + diagbib1_str(code) + (none || add.empty() ? "" : " -- " + add) + "\n"; }
                    else { l[0]->records[j] = sur(o, db, 1, 0); Z_DiagRec *d = l[0]->records[j]->u.surrogateDiagnostic; d->which = Z_DiagRec_externallyDefined; d->u.externallyDefined = z_ext_record_oid(o, yaz_oid_recsyn_xml, "x", 1); text = " ERROR diag not in default format\n"; }
                    l[1]->records[j] = zk::record(o, db, yaz_oid_recsyn_sutrs, "x"); l[1]->records[j]->u.databaseRecord = z_ext_record_sutrs(o, text.data(), text.size()); } }
            int z = 0; for (Z_APDU *r : {a, b}) { if (k < 4) { r->u.presentResponse->records = zk::records(o, l[z]); *r->u.presentResponse->numberOfRecordsReturned = m; *r->u.presentResponse->nextResultSetPosition = m + 7; } else { r->u.searchResponse->records = zk::records(o, l[z]); *r->u.searchResponse->numberOfRecordsReturned = m; *r->u.searchResponse->resultCount = 100 + m; } z++; }
        }
        if (x.chance(1, 12)) { back = 0; x.desc << " unanswered"; need(!cl.send(q), "answer out of nothing"); continue; }
        Z_GDU g, w; g.which = w.which = Z_GDU_Z3950; g.u.z3950 = q; w.u.z3950 = b; std::string ask = zk::encode(&g), exp = zk::encode(&w), expt = zk::print(&w); back = a; Z_GDU *v = cl.send(q); same(seen, ask, "request passed on"); std::string got = zk::encode(v); if (got != exp) same(zk::print(v), expt, "answer"); same(got, exp, "answer"); need(!cl.closed, "session closed");
    }
    x.nontrivial = removed > 0;
}
// ---- zeerex_explain
static std::string text(xmlNode *n) { xmlChar *t = xmlNodeGetContent(n); std::string r = (const char *) t; xmlFree(t); return r; }
static bool is(xmlNode *n, const char *s) { return n->type == XML_ELEMENT_NODE && !strcmp((const char *) n->name, s); }
static xmlNode *find(xmlNode *n, const char *s) { for (; n; n = n->next) { if (is(n, s)) return n; if (xmlNode *r = find(n->children, s)) return r; } return 0; }
// what an answer says: the record, and how it is packed
static std::string said(Z_GDU *g)
{
    if (!g || g->which != Z_GDU_HTTP_Response) return "no HTTP answer"; Z_HTTP_Response *h = g->u.HTTP_Response; if (h->code != 200) return "code " + num(h->code);
    xmlDoc *d = xmlReadMemory(h->content_buf, h->content_len, 0, 0, XML_PARSE_NOERROR | XML_PARSE_NOWARNING); if (!d) return "no XML"; xmlNode *root = xmlDocGetRootElement(d), *data = find(root, "recordData"), *pack = find(root, "recordPacking"), *e = 0; if (!pack) pack = find(root, "recordXMLEscaping"); std::string r; xmlDoc *in = 0;
    if (find(root, "Fault")) { xmlFreeDoc(d); return "fault"; } if (!find(root, "explainResponse")) r += "no explain;"; if (header(h->headers, "Content-Type").compare(0, 8, "text/xml")) r += "type;"; if (pack) r += text(pack) + ";";
    if (data) { for (e = data->children; e && e->type != XML_ELEMENT_NODE; e = e->next) ; if (!e) { std::string t = text(data); in = xmlReadMemory(t.data(), (int) t.size(), 0, 0, XML_PARSE_NOERROR | XML_PARSE_NOWARNING); e = in ? xmlDocGetRootElement(in) : 0; } }
    if (!e) r += "no record"; else { r += (const char *) e->name; r += e->ns && !strcmp((const char *) e->ns->href, "http://explain.z3950.org/dtd/2.0/") ? "" : "(namespace)"; for (xmlNode *c = e->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) { r += std::string(" ") + (const char *) c->name + "="; r += text(c); } }
    if (find(root, "diagnostic")) r += " diagnostic"; if (in) xmlFreeDoc(in); xmlFreeDoc(d); return r;
}
struct Db { std::string name, text; bool none = false; };
static std::string uri(const std::string &s) { std::string r; char b[4]; for (unsigned char c : s) { if (isalnum(c) || strchr("-_.~/", c)) r += (char) c; else { snprintf(b, sizeof b, "%%%02x", c); r += b; } } return r; }
struct Ask { std::string path, body, ctype, want, method = "GET"; Z_GDU *make(ODR o) const { Z_GDU *g = z_get_HTTP_Request(o); Z_HTTP_Request *h = g->u.HTTP_Request; h->method = odr_strdup(o, method.c_str()); h->path = odr_strdup(o, path.c_str()); h->version = (char *) "1.1"; z_HTTP_header_add(o, &h->headers, "Host", "h.org:8080"); if (!ctype.empty()) z_HTTP_header_add(o, &h->headers, "Content-Type", ctype.c_str()); if (body.size()) { h->content_buf = odr_strdupn(o, body.data(), body.size()); h->content_len = (int) body.size(); } return g; } };
static Ask ask(Ctx &x, const std::vector<Db> &dbs)
{
    Ask a; std::string db = x.chance(1, 5) ? x.pick({"nodb", "", "d", "d11"}) : dbs[x.range(0, (int) dbs.size() - 1)].name; const Db *k = 0; for (auto &d : dbs) if (!k && d.name == (db.empty() ? "Default" : db)) k = &d;
    a.path = "/" + db; bool str = x.coin(), post = x.chance(1, 3); std::string v = x.pick({"1.1", "1.2"}), args; int how = x.range(0, 6); std::string pack = x.chance(1, 3) ? "" : str ? "&recordPacking=string" : "&recordPacking=xml"; if (pack.empty()) str = false;
    if (how < 3) args = "version=" + v + "&operation=explain" + pack; else if (how == 3) { args = x.pick({"", "x-a=b"}); str = false; } else if (how == 4) { args = "version=" + v + "&operation=searchRetrieve&query=x" + pack; } else if (how == 5) { args = "version=" + v + "&operation=scan&scanClause=x"; } else { a.method = "POST"; a.ctype = x.pick({"application/json", "text/plain"}); a.body = "x"; }
    if (how < 6) { if (post && !args.empty()) { a.method = "POST"; a.ctype = "application/x-www-form-urlencoded"; a.body = args; } else if (!args.empty()) a.path += "?" + args; }
    if (!k || how == 4 || how == 5) a.want = "on"; else if (how == 6) a.want = a.ctype == "text/plain" ? "fault" : "code 400"; else a.want = std::string(str ? "string;" : "xml;") + (k->none ? "explain serverInfo=\n    h.org\n    8080\n    " + k->name + "\n  " : "explain t=" + k->text);
    return a;
}
static std::vector<Db> gen(Ctx &x, std::string &conf) { std::vector<Db> v; int n = x.range(1, 3); for (int i = 0; i < n; i++) { Db d; d.name = x.pick({"d1", "a/b", "Default", "d%20x", "D1"}); d.text = x.pick({"one", "a & <b>", "\xc3\xa6", ""}) + num(i); d.none = x.chance(1, 6); conf += "<database name=\"" + d.name + "\">"; if (x.coin()) conf += "<!-- c -->\n"; if (!d.none) conf += "<explain xmlns=\"http://explain.z3950.org/dtd/2.0/\"><t>" + zk::esc(d.text) + "</t></explain>"; conf += "</database>"; v.push_back(d); } return v; }
static void run(zk::Client &cl, const Ask &a)
{
    Mem o; Z_GDU *g = a.make(o); Z_GDU *v = cl.send(g); need(v != 0, "no answer"); if (a.want == "on") { same(said(v), "code 299", "answer of the next filter"); Mem p; same(std::string(v->u.HTTP_Response->content_buf, v->u.HTTP_Response->content_len), zk::encode(a.make(p)), "request passed on"); need(!cl.closed, "session closed"); } else { same(said(v), a.want, "answer"); if (a.want == "code 400" || a.want == "fault") need(cl.closed, "session still open"); else need(!cl.closed, "session closed"); }
}
static void explain(Ctx &x)
{
    Hooks h; zk::hooks().fn = [](const zk::Hook *, zk::mp::Package &p) { Z_GDU *g = p.request().get(); if (p.session().is_closed() || !g) return; zk::mp::odr o; if (g->which == Z_GDU_Z3950) { p.response() = zk::close_reply(o, g->u.z3950, 5, "seen"); return; } std::string b = zk::encode(g); Z_GDU *a = o.create_HTTP_Response(p.session(), g->u.HTTP_Request, 299); a->u.HTTP_Response->content_buf = odr_strdupn(o, b.data(), b.size()); a->u.HTTP_Response->content_len = (int) b.size(); p.response() = a; };
    std::string conf; std::vector<Db> dbs = gen(x, conf); x.desc << conf; zk::Net net({&metaproxy_1_filter_zeerex_explain}, zk::route("start", "<filter type=\"zeerex_explain\">" + conf + "</filter>" + zk::hook("rest"))); std::string keep(net.xml);
    int nt = x.chance(1, 6) ? x.range(2, 4) : 1, hits = 0; std::vector<std::vector<Ask> > as(nt); for (auto &v : as) for (int i = x.range(1, 4); i > 0; i--) { v.push_back(ask(x, dbs)); hits += v.back().want != "on"; x.desc << " [" << v.back().method << " " << v.back().path << " " << v.back().body << "]"; if (v.back().want == "code 400" || v.back().want == "fault") break; }
    if (nt == 1) { zk::Client cl(net); for (auto &a : as[0]) run(cl, a); if (!cl.closed && x.chance(1, 4)) { Mem o; Z_GDU *v = cl.send(zk::init(o)); need(zk::is_close(v), "Z39.50 not passed on"); } }
    else { std::vector<std::string> bad(nt); std::vector<std::thread> ts; for (int i = 0; i < nt; i++) ts.emplace_back([&, i] { try { for (int r = 0; r < 3; r++) { zk::Client cl(net); for (auto &a : as[i]) run(cl, a); } } catch (Fail &f) { bad[i] = f.what(); } }); for (auto &t : ts) t.join(); for (auto &b : bad) x.check(b.empty(), b); x.label("threads"); }
    x.nontrivial = hits > 0;
}
// ---- which configurations are refused
static void configs(Ctx &x)
{
    int k = x.range(0, 8); bool good = true; std::string t, c; if (k == 0) { t = "bounce"; c = x.pick({"", "<echo>1</echo>", "<!-- c -->"}); } else if (k == 1) { t = "bounce"; c = x.pick({"<Echo/>", "<echoes>1</echoes>"}); good = false; } else if (k == 2) { t = "sd_remove"; c = x.pick({"", "\n", "<!-- c -->"}); } else if (k == 3) { t = "sd_remove"; c = x.pick({"<a/>", "<!-- c --><x>1</x>"}); good = false; } else if (k == 4) { t = "zeerex_explain"; c = x.pick({"", "<database name=\"a\"/>", "<database name=\"a\"><e/></database><database name=\"b\"/>"}); } else { t = "zeerex_explain"; c = x.pick({"<databases name=\"a\"/>", "<database Name=\"a\"/>", "<database name=\"a\" x=\"y\"/>", "<database xmlns=\"http://x/\" name=\"a\"/>"}); good = false; }
    x.desc << t << " " << c; bool ok = true; try { zk::Net net({&metaproxy_1_filter_bounce, &metaproxy_1_filter_sd_remove, &metaproxy_1_filter_zeerex_explain}, zk::route("start", "<filter type=\"" + t + "\">" + c + "</filter>")); } catch (std::exception &) { ok = false; } x.check(ok == good, ok ? "accepted" : "refused"); x.nontrivial = true; x.label(good ? "good" : "bad");
}
int main(int argc, char **argv)
{
    zk::quiet(); Check c; c.id = "C31";
    c.add("bounce", 15000, 200000, "each", bounce);
    c.add("surrogates", 25000, 400000, "a diagnostic removed", surrogates);
    c.add("explain", 20000, 300000, "an explain record asked for", explain);
    c.add("configs", 1500, 20000, "each", configs);
    return run(c, argc, argv);
}
