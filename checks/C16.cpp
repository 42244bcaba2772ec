// SOURCES: kit filter_present_chunk
// Present requests in chunks: the client gets what one request would give it, the server never more than a chunk at once.
#include "../models/zkit.hpp"
ZK_FILTER(present_chunk)
using namespace pbt;
using zk::Server;
struct World {
    std::unique_ptr<zk::Net> net; Server srv; std::vector<std::pair<long, long> > asked; std::vector<std::string> plan; size_t at = 0; std::vector<std::string> refs; int extra = 0; std::string raw;
    bool none = false, other = false;
    World(const std::string &conf) {
        net.reset(new zk::Net({&metaproxy_1_filter_present_chunk}, zk::route("start", "<filter type=\"present_chunk\">" + conf + "</filter>" + zk::hook("b"))));
        srv.fault = [this](const std::string &, Server::Ses &, Z_APDU *a) -> std::string { if (a->which != Z_APDU_presentRequest || at >= plan.size()) return ""; std::string f = plan[at]; return f.compare(0, 4, "cap:") == 0 ? "" : f; };
        srv.cap = [this](int n) { std::string f = at < plan.size() ? plan[at] : ""; if (f.compare(0, 4, "cap:")) return n; int c = atoi(f.c_str() + 4); return c >= 1000 ? n + c - 1000 : c < n ? c : n; };
        zk::hooks().fn = [this](const zk::Hook *h, zk::mp::Package &p) {
            Z_GDU *g = p.request().get();
            if (g && g->which == Z_GDU_Z3950) {
                raw = zk::encode(g); refs.push_back(zk::get_ref(g->u.z3950));
                if (g->u.z3950->which == Z_APDU_presentRequest) { asked.emplace_back((long) *g->u.z3950->u.presentRequest->resultSetStartPoint, (long) *g->u.z3950->u.presentRequest->numberOfRecordsRequested); }
                if (asked.size() > 3000) throw Fail("endless present requests");
            }
            if (g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_presentRequest) {
                std::string f = at < plan.size() ? plan[at] : "";
                if (f == "none") ; else if (f == "other") { zk::Mem o; p.response() = zk::reply(o, Z_APDU_searchResponse, g->u.z3950); } else srv.process(h->label, p);
                at++;
            } else srv.process(h->label, p);
        };
    }
    ~World() { zk::hooks().fn = nullptr; }
};
static void presents(Ctx &x)
{
    int chunk = x.weighted({1, 8, 2}) == 0 ? 0 : x.coin() ? x.range(1, 4) : x.range(1, 30);
    std::string conf = chunk || x.coin() ? "<chunk>" + std::to_string(chunk) + "</chunk>" : ""; World w(conf); int hits = x.coin() ? x.range(0, 20) : x.range(0, 200); w.srv.hits = [&](const std::string &, const std::vector<std::string> &, const std::string &) { return hits; };
    zk::Client c(*w.net); zk::Mem o; c.send(zk::init(o)); zk::Search s; s.dbs = {"A"}; s.query = "abc"; zk::search_of(c.send(zk::search(o, s))); x.desc << "chunk " << conf << " hits " << hits;
    for (int n = x.range(1, 6); n > 0; n--) {
        zk::Present p; p.ref = x.str("ab\1", 5); p.syn = x.pick({"", "xml", "usmarc"}); p.esn = x.pick({"", "B", "F", "long name"}); p.start = x.range(1, hits + 1); int left = hits - p.start + 1;
        p.num = x.chance(1, 12) ? x.pick({-1, 0, 1000000, 2147483647, -2147483647}) : x.chance(1, 8) ? x.range(0, 2 * hits + 3) : x.range(0, left);
        if (x.chance(1, 20)) p.start = x.pick({0, -1, 2147483647, -2147483647});
        w.plan.clear(); w.at = 0; w.asked.clear(); w.refs.clear(); int k = -1; std::string ev;
        if (x.chance(1, 2) && hits && chunk) { for (int i = x.range(1, 8); i > 0; i--) w.plan.push_back(x.coin() ? "" : "cap:" + std::to_string(x.range(1, chunk))); }
        if (x.chance(1, 4)) { k = x.range(0, 3); while ((int) w.plan.size() <= k) w.plan.push_back(""); w.plan[k] = ev = x.pick({"diag:13", "diag:2", "cap:0", "cap:1005", "cap:1001", "drop", "vanish", "none", "other"}); }
        x.desc << " present " << p.start << "+" << p.num << " [" << Server::join(w.plan) << "]";
        // the server's answer to the whole; a reference run of the chunks
        std::vector<std::string> want; std::string diag; bool over = false, lost = false, nothing = false, strange = false; long st = p.start, num = p.num, off = 0; std::vector<std::pair<long, long> > asks; size_t at = 0; bool split = chunk > 0 && num > chunk;
        if (x.nontrivial == false && split) x.nontrivial = true;
        for (;;) {
            long m = split ? std::min<long>(num - off, chunk) : num; asks.emplace_back(st + off, m);
            std::string f = at < w.plan.size() ? w.plan[at] : ""; at++;
            if (f == "none") { nothing = true; break; } if (f == "other") { strange = true; break; }
            if (f == "drop" || f == "vanish") { over = true; lost = f == "vanish"; break; }
            if (f.compare(0, 5, "diag:") == 0) { diag = f.substr(5) + ":present"; break; }
            if (m < 0 || st + off < 1 || (m > 0 && st + off + m - 1 > hits)) { diag = "13"; break; }
            long got = m; if (f.compare(0, 4, "cap:") == 0) { int q = atoi(f.c_str() + 4); got = q >= 1000 ? m + q - 1000 : std::min<long>(q, m); }
            if (split && got > m) got = m;
            for (long i = 0; i < got; i++) want.push_back(Server::body("b", {"A"}, zk::query_text(zk::pqf(o, "abc")), st + off + i, zk::oid_text(zk::syntax(o, p.syn.empty() ? "xml" : p.syn)), p.esn.empty() ? "-" : p.esn));
            off += got; if (!split || off >= num || got == 0) break;
        }
        std::string reqtext; { Z_APDU *a = zk::present(o, p); zk::mp::Package pk(c.s, c.o); pk.router(*w.net->r); pk.request() = a; std::string before = zk::encode(pk.request().get()); pk.move(); c.last = pk.response(); c.closed = pk.session().is_closed(); x.check(zk::encode(pk.request().get()) == before, "the filter left another request than the client's: " + zk::print(pk.request().get())); }
        std::ostringstream a1, a2; for (auto &a : w.asked) a1 << a.first << "+" << a.second << " "; for (auto &a : asks) a2 << a.first << "+" << a.second << " ";
        x.eq(a1.str(), a2.str(), "present requests to the server");
        for (auto &r : w.refs) x.eq(r, p.ref, "reference id of a request to the server");
        Z_GDU *g = c.last.get();
        if (over) { x.check(c.closed, "the server closed the session; the filter did not"); if (lost) x.check(!g, "an answer from nowhere"); else x.check(zk::is_close(g), "the server's close was not passed on"); x.label("lost"); return; }
        x.check(!c.closed, "session closed");
        if (nothing) { x.check(!g, "an answer from nowhere"); x.label("no answer"); continue; }
        if (strange) { x.check(zk::search_of(g), "answer not passed on"); x.label("other answer"); continue; }
        Z_PresentResponse *r = zk::present_of(g); x.check(r, "answered with " + zk::print(g)); x.eq(zk::get_ref(g->u.z3950), p.ref, "reference id of the response");
        zk::Recs rs = zk::recs(r->records);
        if (!diag.empty()) { x.check(rs.diag.find(diag) != std::string::npos && rs.body.empty(), "diagnostic: got <" + rs.diag + "> expected <" + diag + ">"); x.check(*r->presentStatus == Z_PresentStatus_failure, "status with diagnostic"); x.label("diagnostic"); continue; }
        x.eq(Server::join(rs.body), Server::join(want), "records"); x.eq((long) *r->numberOfRecordsReturned, (long) want.size(), "number of records returned");
        long next = st + (long) want.size() <= hits ? st + (long) want.size() : 0; if (ev.compare(0, 4, "cap:")) x.eq((long) *r->nextResultSetPosition, next, "next position");
        if (split) x.label("split");
    }
    x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]);
}
// everything else passes unchanged
static void others(Ctx &x)
{
    World w("<chunk>" + std::to_string(x.range(0, 3)) + "</chunk>"); zk::Client c(*w.net); zk::Mem o; Z_APDU *in = zk::init(o, {0, 1}, "r1"); x.nontrivial = true;
    std::string want; auto enc = [&](Z_APDU *a) { yazpp_1::GDU g(a); return zk::encode(g.get()); };
    want = enc(in); c.send(in); x.check(w.raw == want, "init changed");
    for (int n = x.range(1, 5); n > 0; n--) {
        Z_APDU *a; zk::Search s; s.ref = x.str("abc", 4); s.dbs = {x.str1("ab", 3), "x"}; s.ssub = x.range(0, 3); s.lslb = x.range(1, 9); s.mspn = x.range(0, 9); zk::Scan sc; sc.ref = s.ref; sc.num = x.range(0, 9);
        switch (x.range(0, 2)) { case 0: a = zk::search(o, s); break; case 1: a = zk::scan(o, sc); break; default: a = zget_APDU(o, Z_APDU_deleteResultSetRequest); zk::set_ref(o, a, s.ref); }
        x.desc << zk::name(a->which) << " "; want = enc(a); Z_GDU *g = c.send(a); x.check(w.raw == want, "request changed to " + w.raw); x.check(g && g->which == Z_GDU_Z3950 && g->u.z3950->which == zk::response_type(a->which), "answer " + zk::print(g)); x.eq(zk::get_ref(g->u.z3950), s.ref, "reference id");
    }
}
static void config(Ctx &x)
{
    x.nontrivial = true; std::string el = x.pick({"chunk", "chunks", "Chunk", "present", "x"}); x.desc << el; bool bad = el != "chunk", threw = false;
    std::string conf = (x.coin() ? "<chunk>3</chunk>" : "") + std::string("<") + el + ">" + std::to_string(x.range(1, 3)) + "</" + el + ">";
    try { World w(conf); } catch (zk::mp::filter::FilterException &e) { threw = true; }
    x.eq(threw, bad, "configuration " + conf + " refused");
}
int main(int argc, char **argv)
{
    zk::quiet();
    Check c; c.id = "C16";
    c.add("presents", 8000, 200000, "a present of more records than a chunk", presents)
     .add("others", 500, 10000, "all", others)
     .add("config", 50, 300, "all", config);
    return run(c, argc, argv);
}
