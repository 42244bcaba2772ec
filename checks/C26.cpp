// SOURCES: kit filter_frontend_net thread_pool_observer pipe
// SHIM: core net
// LINK: -Wl,--wrap=time
// VARIANTS: asan tsan
// The network server: every request that arrived is answered once, on its own connection, and every session ends once.
#include "../models/netkit.hpp"
#include "filter_frontend_net.hpp"
#include <libxml/parser.h>
#include <libxml/tree.h>
ZK_FILTER(frontend_net)
using namespace pbt;
static std::atomic<long> g_clock(1000000);
extern "C" time_t __wrap_time(time_t *t) { time_t v = g_clock; if (t) *t = v; return v; }
extern "C" void yaz_daemon_stop(void) {}
static zk::mp::filter::FrontendNet *g_front;
static zk::mp::filter::Base *make_front() { return g_front = new zk::mp::filter::FrontendNet; }
static struct metaproxy_1_filter_struct front_type = {0, "frontend_net", make_front};

static void on_usr1(int s) { g_front->stop(s); }
struct Ev { unsigned long sid; bool closed, req; std::string key, addr, label; };
struct Req { std::string key, how, bytes; bool http = false, done = false; int type = 0; };
static const char *HOW[] = {"ok", "slow", "big", "none", "closing", "drop"};
static std::string body_of(const std::string &key, bool big) { std::string s = "<" + key + ">"; if (big) { s.resize(60000 + 7 * (int) (hash(key) % 60000), 'x'); s += key; } return s; }
struct World {
    std::mutex m; std::vector<Ev> ev; std::string trouble; nk::Front f; std::set<unsigned long> dead; std::atomic<int> answered{0}; int close_nap = 0; bool one = false;     // one: packages start in the order they were put
    void log(const Ev &e) { std::lock_guard<std::mutex> l(m); if (dead.count(e.sid) && (e.closed || one)) trouble = "session " + std::string(e.closed ? "ended twice" : "had a request after its end"); if (e.closed) dead.insert(e.sid); ev.push_back(e); }
    void handle(const zk::Hook *h, zk::mp::Package &p) {
        Z_GDU *g = p.request().get(); std::string key, how; bool http = g && g->which == Z_GDU_HTTP_Request;
        if (http) { std::string s = g->u.HTTP_Request->path; size_t a = s.find('/', 1); key = s.substr(1, a - 1); how = a == std::string::npos ? "" : s.substr(a + 1); }
        else if (g && g->which == Z_GDU_Z3950) { Z_ReferenceId **r = zk::refp(g->u.z3950); std::string s = r && *r ? std::string((char *) (*r)->buf, (*r)->len) : ""; size_t a = s.find('/'); key = s.substr(0, a); how = a == std::string::npos ? "" : s.substr(a + 1); }
        std::ostringstream os; os << p.origin(); std::string fw = os.str(); fw.resize(fw.rfind(':'));     // forwarded address:session
        log(Ev{p.session().id(), p.session().is_closed(), g != 0, key, p.origin().get_address() + "|" + fw + "|" + p.origin().get_bind_address(), h->label});
        if (!g) { if (close_nap) nk::nap(close_nap); return; }
        if (how == "slow") nk::nap(1 + (int) (hash(key) % 7));
        if (how == "closing" || how == "drop") p.session().close();
        if (how == "none" || how == "drop") return;
        zk::Mem o;
        if (http) { Z_GDU *r = z_get_HTTP_Response(o, 200); Z_HTTP_Response *s = r->u.HTTP_Response; z_HTTP_header_add(o, &s->headers, "X-Key", key.c_str()); std::string b = body_of(key, how == "big"); s->content_buf = odr_strdup(o, b.c_str()); s->content_len = (int) b.size(); p.response() = r; }
        else {
            Z_APDU *q = g->u.z3950, *a; std::string b = body_of(key, how == "big");
            if (q->which == Z_APDU_initRequest) { a = zk::reply(o, Z_APDU_initResponse, q); a->u.initResponse->implementationName = odr_strdup(o, b.c_str()); }
            else if (q->which == Z_APDU_searchRequest) a = zk::search_reply(o, q, 3, b.c_str());
            else if (q->which == Z_APDU_presentRequest) a = zk::present_reply(o, q, 3, b.c_str());
            else a = zk::close_reply(o, q, 1, b.c_str());
            p.response() = a;
        }
        answered++;
    }
    World(const std::string &routes, const std::string &start) {
        g_clock = 1000000; yazpp_1::shim_second_ms = 1000;
        zk::hooks().fn = [this](const zk::Hook *h, zk::mp::Package &p) { handle(h, p); };
        f.launch({&front_type}, routes, start);
    }
    int ended() { std::lock_guard<std::mutex> l(m); return (int) dead.size(); }
    // stop the listeners; the server ends when no connection is left
    bool stop(const std::function<bool()> &poke) {
        pthread_kill(f.th.native_handle(), SIGUSR1); long long e = nk::ms() + 8000;
        while (!f.ended && nk::ms() < e) { poke(); f.wait_end(20); }
        return f.ended;
    }
    ~World() { if (!f.ended && f.th.joinable()) { fprintf(stderr, "server does not end\n"); abort(); } f.join(); zk::hooks().fn = nullptr; }
};
static std::string body(const nk::Msg &m)
{
    if (m.http) return m.body;
    Z_APDU *a = m.apdu(); if (!a) return "";
    if (a->which == Z_APDU_initResponse) return a->u.initResponse->implementationName ? a->u.initResponse->implementationName : "";
    Z_Records *r = a->which == Z_APDU_searchResponse ? a->u.searchResponse->records : a->which == Z_APDU_presentResponse ? a->u.presentResponse->records : 0;
    if (r && r->which == Z_Records_NSD) return r->u.nonSurrogateDiagnostic->u.v2Addinfo;
    if (a->which == Z_APDU_close && a->u.close->diagnosticInformation) return a->u.close->diagnosticInformation;
    return "";
}
static Req request(Ctx &x, bool http, int no, const std::string &how, const std::string &fwd)
{
    Req r; r.http = http; r.key = "k" + std::to_string(no); r.how = how; zk::Mem o; Z_GDU *g;
    if (http) {
        g = z_get_HTTP_Request(o); Z_HTTP_Request *h = g->u.HTTP_Request; h->version = (char *) "1.1"; h->path = odr_strdup(o, ("/" + r.key + "/" + how).c_str()); h->method = (char *) "GET";
        z_HTTP_header_add(o, &h->headers, "Host", "x"); if (fwd.size()) z_HTTP_header_add(o, &h->headers, "X-Forwarded-For", fwd.c_str());
        if (x.chance(1, 4)) { h->method = (char *) "POST"; h->content_len = x.range(1, 3000); h->content_buf = (char *) odr_malloc(o, h->content_len); memset(h->content_buf, 'p', h->content_len); }
    } else {
        Z_APDU *a; switch (r.type = x.range(0, 3)) { case 0: a = zk::init(o); break; case 1: { zk::Search s; s.query = "a"; s.dbs = {"A"}; a = zk::search(o, s); break; } case 2: { zk::Present s; a = zk::present(o, s); break; } default: a = zget_APDU(o, Z_APDU_close); }
        std::string ref = r.key + "/" + how; *zk::refp(a) = odr_create_Odr_oct(o, ref.c_str(), (int) ref.size());
        g = (Z_GDU *) odr_malloc(o, sizeof *g); g->which = Z_GDU_Z3950; g->u.z3950 = a;
    }
    r.bytes = zk::encode(g); return r;
}
static bool ending(const std::string &how) { return how == "none" || how == "closing" || how == "drop" || how == "stat"; }
struct Cl {
    nk::Conn c; bool http = false, gone = false, slack = false; std::vector<Req> reqs; size_t end = SIZE_MAX; int got500 = 0, gotclose = 0, port = 0; std::set<std::string> seen; std::vector<std::string> order; std::string partial, fwd, name;
    bool over() const { return end != SIZE_MAX; }
    // what a client sends after the end of the session may cost it answers under way (TCP resets the connection)
    bool must(size_t i) const { return i <= end && (end == SIZE_MAX || reqs.size() == end + 1); }
};
static void take(Ctx &x, World &w, Cl &c, int sent_total)
{
    nk::Msg m; c.c.pull();
    while (c.c.next(m)) {
        x.check(m.g != 0, "an answer that does not decode: " + hex(m.raw.substr(0, 60)));
        x.check(m.http == c.http, "an answer of the other protocol");
        std::string key;
        if (m.http && m.code == 500) { c.got500++; int n = 0; for (auto &r : c.reqs) n += r.how == "none"; x.check(c.got500 <= n, "HTTP 500 for a request that was handled"); continue; }
        if (m.http && m.body.find("<frontend_net>") != std::string::npos) {
            int n = 0; for (auto &r : c.reqs) if (r.how == "stat" && !r.done) { r.done = true; n = 1; break; } x.check(n, "a report nobody asked for");
            xmlDocPtr d = xmlReadMemory(m.body.data(), (int) m.body.size(), "r", 0, XML_PARSE_NOERROR | XML_PARSE_NOWARNING); int freq = -1, sum = 0; bool wf = d != 0;
            if (d) { for (xmlNode *e = xmlDocGetRootElement(d)->children; e; e = e->next) if (e->type == XML_ELEMENT_NODE && !strcmp((const char *) e->name, "responses")) { xmlChar *v = xmlGetProp(e, BAD_CAST "frequency"); freq = v ? atoi((char *) v) : -1; xmlFree(v); for (xmlNode *k = e->children; k; k = k->next) if (k->type == XML_ELEMENT_NODE && (v = xmlGetProp(k, BAD_CAST "frequency"))) { sum += atoi((char *) v); xmlFree(v); } } xmlFreeDoc(d); }
            x.check(wf, "report is not well-formed: " + m.body.substr(0, 2000)); x.eq(sum, freq, "report: sum of the frequencies"); x.check(freq <= sent_total, "report counts more responses than there were requests"); x.eq(m.code, 200, "status of the report"); continue;
        }
        if (!m.http && m.apdu()->which == Z_APDU_close && *m.apdu()->u.close->closeReason == Z_Close_systemProblem) {
            x.eq(body(m), std::string("unhandled Z39.50 request"), "Close for an unhandled request"); std::string ref = m.ref(); key = ref.substr(0, ref.find('/')); bool f = false; for (auto &r : c.reqs) if (r.key == key && r.how == "none" && !r.done) { r.done = f = true; } x.check(f, "Close (unhandled) for " + q(ref)); continue;
        }
        if (m.http) key = m.hdr["X-Key"]; else { std::string ref = m.ref(); key = ref.substr(0, ref.find('/')); }
        Req *r = 0; for (auto &k : c.reqs) if (k.key == key) r = &k;
        x.check(r != 0, c.name + " got the answer to " + q(key) + ", which it did not send"); x.check(!r->done, "two answers to " + key); r->done = true; c.order.push_back(key);
        x.check(r->how == "ok" || r->how == "slow" || r->how == "big" || r->how == "closing", "an answer to " + key + " (" + r->how + ")");
        std::string b = body(m); x.check(b == body_of(key, r->how == "big"), "answer to " + key + " has content of length " + std::to_string(b.size()) + " <" + b.substr(0, 60) + ">");
        if (!m.http) { int t = m.apdu()->which, want[] = {Z_APDU_initResponse, Z_APDU_searchResponse, Z_APDU_presentResponse, Z_APDU_close}; x.eq(t, want[r->type], "type of the answer to " + key); }
    }
}
static bool settled(Cl &c)
{
    int none = 0; for (size_t i = 0; i < c.reqs.size(); i++) { Req &r = c.reqs[i]; if (!c.must(i)) continue; if (r.how == "none" && r.http) { none++; continue; } if (r.how == "drop") continue; if (!r.done) return false; }
    return c.got500 >= none;
}
static void await(Ctx &x, World &w, Cl &c, int sent)
{
    long long end = nk::ms() + 12000;
    while (true) {
        take(x, w, c, sent); bool s = settled(c);
        if (s && (!c.over() || c.c.eof)) break;
        if (c.c.eof) { if (!s) { std::string miss; for (size_t i = 0; i < c.reqs.size(); i++) if (c.must(i) && !c.reqs[i].done && c.reqs[i].how != "drop") miss += " " + c.reqs[i].key + "/" + c.reqs[i].how; x.fail(c.name + " was closed without an answer to" + miss); } break; }
        if (nk::ms() > end) { std::string miss; for (size_t i = 0; i < c.reqs.size(); i++) if (!c.reqs[i].done) miss += " " + c.reqs[i].key + "/" + c.reqs[i].how; x.fail(c.name + (s ? ": the session ended but the connection stays open" : " never got an answer to") + miss); }
        c.c.wait(20);
    }
    if (!c.over()) { x.check(!c.c.eof, c.name + " was closed though its session goes on"); }
}
static std::string num(int n) { return std::to_string(n); }
static void histories(Ctx &x)
{
    int threads = x.range(1, 4), maxt = x.chance(1, 3) ? threads + x.range(1, 3) : 0, nports = x.range(1, 2); bool stat = x.coin(), total = x.chance(1, 3); int limit = x.range(4, 6);
    std::string xml, base = scratch() + "/s" + num(getpid()) + "_"; std::vector<std::string> paths;
    std::vector<std::string> routes; for (int i = 0; i < nports; i++) {
        bool ux = x.chance(1, 4); std::string p = ux ? "unix:" + base + num(i) : x.pick({"127.0.0.1:0", "@:0", "tcp:127.0.0.1:0"}), rt = x.chance(1, 3) ? "" : i ? "r2" : "r1"; paths.push_back(p); routes.push_back(rt);
        xml += "<port" + (rt.empty() ? std::string() : " route=\"" + rt + "\"") + ">" + p + "</port>"; if (ux) unlink((base + num(i)).c_str());
    }
    xml += "<threads>" + num(threads) + "</threads>"; if (maxt) xml += "<max-threads>" + num(maxt) + "</max-threads>"; if (stat) xml += "<stat-req>/stat</stat-req>"; if (x.chance(1, 3)) xml += "<message>FN</message>"; if (x.chance(1, 4)) xml += "<stack-size>512</stack-size>"; if (total) xml += "<connect-total ip=\"" + x.pick({"", "*", "127.*", "127.0.0.* ::ffff:127.*", "127.0.0.1 127.0.0.2"}) + "\">" + num(limit) + "</connect-total>";
    x.desc << xml << ": ";
    World w(zk::route("start", "<filter type=\"frontend_net\">" + xml + "</filter>" + zk::hook("rest")) + zk::route("r1", zk::hook("r1")) + zk::route("r2", zk::hook("r2")), "start");
    w.one = threads == 1 && !maxt; x.eq((int) w.f.ports.size(), nports, "listening ports");
    std::vector<std::unique_ptr<Cl> > cl; int no = 0, accepted = 0, pipelined = 0, faults = 0; std::map<std::string, std::pair<int, std::string> > owner; // key -> connection
    auto connect = [&](Cl &c, int port, const std::string &from) { c.port = port; return paths[port].compare(0, 5, "unix:") ? c.c.open_tcp(w.f.ports[port], from) : c.c.open_unix(paths[port].substr(5)); };
    struct Guard { World &w; std::vector<std::unique_ptr<Cl> > &cl; std::function<bool()> poke; bool ok = false; ~Guard() { for (auto &c : cl) c->c.drop(); ok = w.stop(poke); } };
    std::string bad;
    {
        Guard gd{w, cl, [&] { Cl c; return connect(c, 0, "127.0.0.1"); }};
        int steps = x.coin() ? x.range(1, 8) : x.range(1, 25);
        for (int n = steps; n > 0; n--) {
            std::vector<Cl *> live; std::map<std::string, int> at; for (auto &c : cl) { if (!c->gone) live.push_back(c.get()); at[c->c.peer]++; }
            int k = x.weighted({3, 8, 4, 2});
            if (k == 0 || live.empty()) {
                if (live.size() >= 6) continue;
                std::string from = "127.0.0." + num(x.range(1, 3)); int port = x.range(0, nports - 1); if (total && (at[from] >= limit || paths[port].find("unix") == 0)) continue;
                cl.emplace_back(new Cl); Cl &c = *cl.back(); c.http = x.coin(); c.name = "connection " + num((int) cl.size()); x.check(connect(c, port, from), "cannot connect: " + std::string(strerror(errno))); accepted++;
                if (c.http && x.chance(1, 3)) c.fwd = x.pick({"1.2.3.4", "10.0.0.9", "5.6.7.8, 9.9.9.9"});
                x.desc << "c" << cl.size() << (c.http ? "h " : "z "); continue;
            }
            Cl &c = *live[x.range(0, (int) live.size() - 1)]; int id = 0; for (size_t i = 0; i < cl.size(); i++) if (cl[i].get() == &c) id = (int) i + 1;
            if (k == 1 || k == 2) {           // requests, sent in pieces of any size
                int m = k == 1 ? 1 : x.range(2, 5); std::string b = c.partial; c.partial.clear(); x.desc << id << ":";
                for (int i = 0; i < m; i++) {
                    std::string how = HOW[x.weighted({6, 6, 3, 1, 1, 1})]; if (c.http && stat && x.chance(1, 10)) how = "stat";
                    std::string fw = x.chance(3, 4) ? c.fwd : c.http && x.coin() ? "7.7.7.7" : ""; Req r = request(x, c.http, ++no, how, fw); if (how == "stat") { size_t p = r.bytes.find("/k"); size_t e = r.bytes.find(' ', p); r.bytes.replace(p, e - p, "/stat"); }
                    if (ending(how) && !c.over()) c.end = c.reqs.size(); c.reqs.push_back(r); b += r.bytes; x.desc << r.how << ","; owner[r.key] = {id, fw};
                }
                x.desc << " "; if (m > 1) pipelined++;
                if (x.coin()) { size_t o = 0; int cuts = x.range(1, 3); for (int i = 0; i < cuts && o < b.size(); i++) { size_t l = 1 + (size_t) x.range(0, 60) * (b.size() - o) / 61; if (!c.c.push(b.substr(o, l))) { c.slack = true; break; } o += l; if (x.coin()) nk::nap(1); } b = b.substr(std::min(o, b.size())); }
                if (!b.empty() && !c.c.push(b)) c.slack = true;
                x.check(!c.slack || c.over(), c.name + " was cut off while sending");
                if (x.coin()) { await(x, w, c, no); if (threads == 1 && !maxt) { size_t p = 0; for (auto &r : c.reqs) if (p < c.order.size() && c.order[p] == r.key) p++; x.check(p == c.order.size(), "one worker, but the answers came in another order"); } if (c.over()) { c.gone = true; c.c.drop(); } }
            } else {                           // the client goes, some way
                int how = x.range(0, 3); faults++; if (how != 1 && x.coin()) await(x, w, c, no);
                c.gone = true; x.desc << id << (how == 0 ? "-fin " : how == 1 ? "-rst " : how == 2 ? "-part " : "-junk ");
                if (how == 1) c.c.abort();
                else if (how == 2 && c.c.fd >= 0) { Req r = request(x, c.http, ++no, "ok", ""); c.c.push(r.bytes.substr(0, r.bytes.size() / 2)); c.c.drop(); }
                else if (how == 3 && c.c.fd >= 0) {
                    c.c.push(x.pick({std::string("GET\r\n\r\n"), std::string("\x30\x03\x02\x01\x05", 5), std::string("\xb4\x02\x00\x00", 4), std::string("GET / FOO\r\n\r\n"), std::string(300, '\xff')}) + std::string("\x30\x03\x02\x01\x05\r\n\r\n", 9));
                    c.c.wait(2); c.c.drop();
                }
                c.c.drop();
            }
        }
        for (auto &c : cl) if (!c->gone) { await(x, w, *c, no); c->gone = true; c->c.drop(); }
        // every connection that was, and no other, ends as one session
        long long e = nk::ms() + 12000; while (w.ended() < accepted && nk::ms() < e) nk::nap(1);
        x.check(w.ended() >= accepted, "sessions that never end: " + num(accepted - w.ended()) + " of " + num(accepted));
        if (total && paths[0].find("unix") != 0) {     // nothing lives: as many as the limit are let in again
            std::vector<std::unique_ptr<nk::Conn> > again; e = nk::ms() + 12000; int in = 0;
            while (in < limit) { again.emplace_back(new nk::Conn); nk::Conn &c = *again.back(); x.check(c.open_tcp(w.f.ports[0], "127.0.0.1"), "connect"); zk::Mem o; Req r = request(x, true, ++no, "ok", ""); c.push(r.bytes); nk::Msg m; while (!c.eof && !c.next(m) && nk::ms() < e) c.wait(20); if (m.http) in++; else { x.check(nk::ms() < e, "connect-total counts connections that are gone: " + num(in) + " of " + num(limit) + " let in"); again.pop_back(); nk::nap(2); } }
            nk::Conn c; x.check(c.open_tcp(w.f.ports[0], "127.0.0.1"), "connect"); e = nk::ms() + 12000; while (!c.eof && nk::ms() < e) c.wait(20); x.check(c.eof, "one more than connect-total was let in"); x.label("connect-total"); accepted = -1;
        }
    }
    x.check(w.f.ended, "server does not end"); x.check(w.f.error.empty(), w.f.error); x.check(w.trouble.empty(), w.trouble);
    std::map<std::string, unsigned long> sid; std::map<unsigned long, int> conn; std::map<std::string, int> handled;
    for (auto &e : w.ev) if (e.key.size()) { handled[e.key]++; auto o = owner.find(e.key); if (o == owner.end()) continue; int id = o->second.first; auto f = conn.find(e.sid); if (f == conn.end()) conn[e.sid] = id; else x.eq(f->second, id, "connection of session " + num((int) e.sid));
        std::string k = num(id); if (sid.count(k)) x.check(sid[k] == e.sid, "one connection, two sessions"); sid[k] = e.sid; Cl &c = *cl[id - 1];
        x.eq(e.label, routes[c.port].empty() ? std::string("rest") : routes[c.port], "route of " + e.key); size_t a = e.addr.find('|'), b = e.addr.rfind('|');
        x.eq(e.addr.substr(b + 1), paths[c.port], "bind address"); if (paths[c.port].find("unix") != 0) { std::string adr = e.addr.substr(0, a), v4 = adr.compare(0, 7, "::ffff:") ? adr : adr.substr(7); if (adr != "unknown") x.eq(v4, c.c.peer, "peer address of " + e.key); std::string fw = o->second.second, f = fw.substr(0, fw.find(' ')), g = e.addr.substr(a + 1, b - a - 1); if (fw.size()) x.eq(g, f, "forwarded address of " + e.key); else if (adr != "unknown") x.eq(g, adr, "address of " + e.key + ", not forwarded"); } }
    for (auto &h : handled) x.eq(h.second, 1, "times the chain saw " + h.first);
    for (auto &c : cl) for (size_t i = 0; i < c->reqs.size(); i++) if (c->reqs[i].done && c->reqs[i].how != "stat") x.eq(handled[c->reqs[i].key], 1, "answered but not handled: " + c->reqs[i].key);
    x.nontrivial = no >= 3 && (pipelined || faults); if (pipelined) x.label("pipelined"); if (faults) x.label("client goes"); x.label("threads " + num(threads));
}
// what a pattern of the documented form says about an address
static bool glob(const char *p, const char *s) { if (!*p) return !*s; if (*p == '*') { for (;; s++) { if (glob(p + 1, s)) return true; if (!*s) return false; } } return *s && (*p == '?' || *p == *s) && glob(p + 1, s + 1); }
static bool matches(const std::string &pat, const std::string &ip)
{
    std::istringstream is(pat); std::string g; bool any = false;
    while (is >> g) { any = true; if (glob(g.c_str(), ip.c_str())) return true; if (ip.compare(0, 7, "::ffff:") == 0 && g.find(':') == std::string::npos && glob(g.c_str(), ip.c_str() + 7)) return true; }
    return !any;
}
struct Rule { std::string pat; int val; };
static const Rule *first(const std::vector<Rule> &v, const std::string &ip) { for (auto &r : v) if (matches(r.pat, ip)) return &r; return 0; }
static std::string rules(Ctx &x, const char *name, std::vector<Rule> &v, int lo, int hi)
{
    std::string r; for (int n = x.range(0, 3); n > 0; n--) { Rule k{x.pick({"", "*", "127.0.0.1", "127.0.0.2", "127.0.0.? 10.*", "127.0.0.1 127.0.0.3", "::1 127*", "::ffff:127.0.0.2", "10.*", "127.0.0.3*", " ", "*.2"}), x.range(lo, hi)}; v.push_back(k); r += std::string("<") + name + (k.pat.empty() && x.coin() ? "" : " ip=\"" + k.pat + "\"") + (x.chance(1, 3) ? " verbose=\"" + num(x.range(0, 2)) + "\"" : "") + ">" + num(k.val) + "</" + name + ">"; }
    return r;
}
struct Stop { World &w; std::function<void()> drop; int port; ~Stop() { drop(); w.stop([&] { nk::Conn c; return c.open_tcp(port, "127.0.0.1"); }); } };
// one request, one answer; 1 answered, 0 closed without, code of the answer
static int ask(Ctx &x, nk::Conn &c, const std::string &key, nk::Msg &m, const std::string &pad = "")
{
    zk::Mem o; Z_GDU *g = z_get_HTTP_Request(o); Z_HTTP_Request *h = g->u.HTTP_Request; h->version = (char *) "1.1"; h->path = odr_strdup(o, ("/" + key + "/ok").c_str()); z_HTTP_header_add(o, &h->headers, "Host", "x"); if (pad.size()) { h->method = (char *) "POST"; h->content_buf = odr_strdup(o, pad.c_str()); h->content_len = (int) pad.size(); }
    c.push(zk::encode(g)); long long e = nk::ms() + 12000; while (!c.next(m)) { if (c.eof) return 0; if (nk::ms() > e) x.fail("neither an answer nor the end of the connection for " + key); c.wait(20); } return 1;
}
static void limits(Ctx &x)
{
    bool v6 = x.coin(); std::vector<Rule> cm, ct, hm; std::string xml = std::string("<port>") + (v6 ? "@:0" : "127.0.0.1:0") + "</port>", a = rules(x, "connect-max", cm, 0, 5), b = rules(x, "connect-total", ct, 0, 4), c = rules(x, "http-req-max", hm, 0, 6); xml += x.coin() ? a + b + c : c + b + a; if (x.chance(1, 4)) xml += "<message>FN</message>"; x.desc << xml << ": ";
    World w(zk::route("start", "<filter type=\"frontend_net\">" + xml + "</filter>" + zk::hook("rest")), "start"); int port = w.f.ports.at(0);
    struct C { nk::Conn c; std::string ip; }; std::vector<std::unique_ptr<C> > live; Stop st{w, [&] { live.clear(); }, port};
    std::map<std::string, std::vector<long> > acc, req; std::map<std::string, int> gone; int refused = 0, no = 0, sessions = 0, over = 0;
    auto recent = [&](std::vector<long> &v) { int n = 0; for (long t : v) n += t > g_clock - 60; return n; };
    for (int n = x.coin() ? x.range(1, 10) : x.range(5, 30); n > 0; n--) {
        int k = x.weighted({5, 5, 2, 1});
        if (k == 3) { int d = x.pick({7, 21, 35, 70, 105}); g_clock += d; x.desc << "+" << d << "s "; continue; }
        if (k == 2) { if (live.empty()) continue; size_t i = x.range(0, (int) live.size() - 1); x.desc << "-" << live[i]->ip << " "; gone[live[i]->ip]++; over++; live.erase(live.begin() + i); continue; }
        if (k == 0) {
            std::unique_ptr<C> c(new C); std::string v4 = "127.0.0." + num(x.range(1, 3)); std::string ip = c->ip = v6 ? "::ffff:" + v4 : v4; int at = 0; for (auto &l : live) at += l->ip == ip;
            const Rule *t = first(ct, ip), *m = first(cm, ip), *h = first(hm, ip); bool ok = !(t && at >= t->val) && !(m && recent(acc[ip]) >= m->val), lag = t && at + gone[ip] >= t->val; nk::Msg r; int got = 0; long long e = nk::ms() + 12000;
            for (;;) { x.check(c->c.open_tcp(port, v4), "connect"); got = ask(x, c->c, "k" + num(++no), r); if (got || !ok || !lag || nk::ms() > e) break; c->c.drop(); nk::nap(2); }
            x.desc << "c" << ip << (got ? " " : "! "); std::string why = " (live " + num(at) + ", in the last minute " + num(recent(acc[ip])) + ")";
            x.check(got || !ok, "connection refused below the limits" + why); x.check(!got || ok, "connection accepted above the limits" + why);
            if (!got) { refused++; continue; } acc[ip].push_back(g_clock); sessions++; bool rok = !(h && recent(req[ip]) >= h->val);
            x.eq(r.code, rok ? 200 : 500, "status with " + num(recent(req[ip])) + " requests in the last minute"); if (rok) { req[ip].push_back(g_clock); live.push_back(std::move(c)); } else { refused++; long long e2 = nk::ms() + 12000; while (!c->c.eof && nk::ms() < e2) c->c.wait(20); x.check(c->c.eof, "connection over http-req-max stays open"); gone[ip]++; over++; }
            continue;
        }
        if (live.empty()) continue; size_t i = x.range(0, (int) live.size() - 1); C &c = *live[i]; nk::Msg r; const Rule *h = first(hm, c.ip); bool rok = !(h && recent(req[c.ip]) >= h->val); x.desc << "r" << c.ip << (rok ? " " : "! ");
        x.check(ask(x, c.c, "k" + num(++no), r), "connection closed"); x.eq(r.code, rok ? 200 : 500, "status with " + num(recent(req[c.ip])) + " requests in the last minute"); if (rok) req[c.ip].push_back(g_clock); else { refused++; long long e2 = nk::ms() + 12000; while (!c.c.eof && nk::ms() < e2) c.c.wait(20); x.check(c.c.eof, "connection over http-req-max stays open"); gone[c.ip]++; over++; live.erase(live.begin() + i); }
    }
    int at_end = over; long long e = nk::ms() + 12000; while (w.ended() < at_end && nk::ms() < e) nk::nap(1); x.eq(w.ended(), at_end, "sessions that ended"); x.check(w.trouble.empty(), w.trouble); x.nontrivial = refused && sessions > 1; if (refused) x.label("refused"); (void) sessions;
}
static void timeouts(Ctx &x)
{
    const int U = 25; std::vector<Rule> to; std::string xml = "<port>127.0.0.1:0</port>" + rules(x, "timeout", to, 2, 6); if (to.empty()) { to.push_back(Rule{"", 3}); xml += "<timeout>3</timeout>"; } x.desc << xml << ": ";
    World w(zk::route("start", "<filter type=\"frontend_net\">" + xml + "</filter>" + zk::hook("rest")), "start"); yazpp_1::shim_second_ms = U; w.close_nap = x.chance(1, 3) ? 15 : 0; int port = w.f.ports.at(0);
    struct C { nk::Conn c; std::string ip; const Rule *r; long long last; }; std::vector<std::unique_ptr<C> > live; Stop st{w, [&] { live.clear(); yazpp_1::shim_second_ms = 1000; }, port}; int no = 0, timed = 0, kept = 0;
    for (int n = x.range(1, 4); n > 0; n--) { std::unique_ptr<C> c(new C); c->ip = "127.0.0." + num(x.range(1, 3)); c->r = first(to, c->ip); c->last = nk::ms(); x.check(c->c.open_tcp(port, c->ip), "connect"); live.push_back(std::move(c)); x.desc << live.back()->ip << " "; }
    int rounds = x.range(1, 4);
    for (int k = 0; k < rounds; k++) {
        int i = x.range(0, (int) live.size() - 1); C &c = *live[i]; if (c.c.eof) continue; nk::Msg m; long long t = nk::ms(), before = c.last; int got = ask(x, c.c, "k" + num(++no), m); long long u = nk::ms();
        if (!got) { x.check(c.r && u - before >= (long long) c.r->val * U - 2, "closed after " + num((int) (u - before)) + " ms idle"); continue; } c.last = t; int d = x.range(0, 40); nk::nap(d); kept++; x.desc << "r" << i << "+" << d << " ";
        for (auto &l : live) { l->c.pull(); if (l->c.eof) { long long idle = nk::ms() - l->last; x.check(l->r && idle >= (long long) l->r->val * U - 2, l->ip + " closed after " + num((int) idle) + " ms idle"); } }
    }
    // who is idle goes, but not too early; who has no timeout stays
    int expect = 0; long long e = nk::ms() + 12000; for (auto &l : live) { if (!l->r) continue; expect++; while (!l->c.eof && nk::ms() < e) { l->c.wait(5); if (l->c.eof) { long long idle = nk::ms() - l->last; x.check(idle >= (long long) l->r->val * U - 2, l->ip + " closed after " + num((int) idle) + " ms idle"); } } x.check(l->c.eof, "idle connection of " + l->ip + " stays open"); timed++; }
    for (auto &l : live) if (!l->r) { nk::Msg m; x.check(ask(x, l->c, "k" + num(++no), m), "connection without timeout was closed"); }
    while (w.ended() < expect && nk::ms() < e + 3000) nk::nap(1); x.eq(w.ended(), expect, "sessions that ended"); x.check(w.trouble.empty(), w.trouble); x.nontrivial = timed && kept;
}
static void sizes(Ctx &x)
{
    int lim = x.pick({2000, 5000, 20000, 100000}); bool two = x.coin(); World w(zk::route("start", "<filter type=\"frontend_net\"><port max_recv_bytes=\"" + num(lim) + "\">127.0.0.1:0</port>" + (two ? "<port>127.0.0.1:0</port>" : "") + "</filter>" + zk::hook("rest")), "start"); x.desc << lim << ": ";
    Stop st{w, [] {}, w.f.ports.at(0)}; int big = 0; for (int n = x.range(1, 5); n > 0; n--) {
        bool huge = x.coin(); int p = two ? x.range(0, 1) : 0, size = huge ? 2 * lim + 20000 + x.range(0, 50000) : x.range(1, lim / 2); if (!huge && size > 300) size -= 300; nk::Conn c; x.check(c.open_tcp(w.f.ports.at(p), "127.0.0.1"), "connect"); nk::Msg m; std::string key = "k" + num(n); x.desc << p << ":" << size << " "; int got = ask(x, c, key, m, std::string(size, 'p'));
        bool want = !huge || p; if (huge) big++; x.check(want || !got, "a request over max_recv_bytes was answered"); x.check(!want || (got && m.code == 200), "a request below max_recv_bytes was not answered"); if (!want) { std::lock_guard<std::mutex> l(w.m); for (auto &e : w.ev) x.check(e.key != key, "a request over max_recv_bytes was handled"); }
    }
    x.nontrivial = big;
}
// told to stop: no new connections; SIGUSR1 lets the present ones go on, SIGTERM does not wait for them
static void stopping(Ctx &x)
{
    bool term = x.chance(1, 6); int nports = x.range(1, 2), nc = x.range(0, 4); World w(zk::route("start", "<filter type=\"frontend_net\"><port>127.0.0.1:0</port>" + std::string(nports > 1 ? "<port>127.0.0.1:0</port>" : "") + "<threads>2</threads></filter>" + zk::hook("rest")), "start"); x.desc << (term ? "TERM " : "USR1 ") << nc << ": ";
    std::vector<std::unique_ptr<nk::Conn> > cs; int no = 0; nk::Msg m; std::vector<int> ports = w.f.ports;
    struct End { World &w; std::vector<std::unique_ptr<nk::Conn> > &cs; int port; ~End() { cs.clear(); if (!w.f.ended) w.stop([&] { nk::Conn c; return c.open_tcp(port, "127.0.0.1"); }); } } end{w, cs, ports.at(0)};
    for (int i = 0; i < nc; i++) { cs.emplace_back(new nk::Conn); x.check(cs.back()->open_tcp(ports[x.range(0, nports - 1)], "127.0.0.1"), "connect"); x.check(ask(x, *cs.back(), "k" + num(++no), m), "no answer"); }
    pthread_kill(w.f.th.native_handle(), term ? SIGTERM : SIGUSR1); long long e = nk::ms() + 12000;
    { nk::Conn c; c.open_tcp(ports[0], "127.0.0.1"); c.push("GET /k0/ok HTTP/1.1\r\n\r\n"); while (!c.eof && nk::ms() < e && !c.next(m) && !w.f.ended) c.wait(5); }      // wakes it up
    if (term) { x.check(w.f.wait_end(12000), "SIGTERM does not end the server"); for (int p : ports) { nk::Conn c; x.check(!c.open_tcp(p, "127.0.0.1"), "still listening after SIGTERM"); } x.label("TERM"); x.nontrivial = nc > 0; return; }
    for (int p : ports) { bool refused = false; while (!refused && nk::ms() < e && !w.f.ended) { nk::Conn c; refused = !c.open_tcp(p, "127.0.0.1"); if (!refused) nk::nap(2); } x.check(refused || w.f.ended, "still listening after SIGUSR1"); }
    for (int n = x.range(0, 5); n > 0 && nc; n--) { nk::Conn &c = *cs[x.range(0, nc - 1)]; x.check(!w.f.ended, "SIGUSR1 ended the server before its connections"); x.check(ask(x, c, "k" + num(++no), m) && m.code == 200, "a connection is cut off by SIGUSR1"); }
    while (!cs.empty()) { x.check(!w.f.ended, "SIGUSR1 ended the server before its connections"); size_t i = x.range(0, (int) cs.size() - 1); cs.erase(cs.begin() + i); }
    x.check(w.f.wait_end(12000), "the server does not end after its last connection"); x.nontrivial = nc > 0;
}
int main(int argc, char **argv)
{
    signal(SIGPIPE, SIG_IGN); signal(SIGUSR1, on_usr1); signal(SIGTERM, on_usr1); yaz_log_init_level(0); xmlInitParser();
    Check c; c.id = "C26"; c.case_wall_s = 120;
    c.add("histories", 1500, 20000, "three or more requests, with pipelining or a client that goes", histories);
    c.add("limits", 400, 6000, "a connection or request was refused and two connections accepted", limits);
    c.add("timeouts", 160, 2500, "a connection timed out after one had been kept alive", timeouts, false);
    c.add("sizes", 120, 1500, "a request over the limit", sizes, false);
    c.add("stopping", 200, 3000, "stopped with open connections", stopping, false);
    return run(c, argc, argv);
}
