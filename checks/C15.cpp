// SOURCES: kit filter_limit
// LINK: -Wl,--wrap=time -Wl,--wrap=sleep
// VARIANTS: asan tsan
// Limits per session: who is over one is delayed, as much as documented by the property, and nobody else.
#include "../models/zkit.hpp"
#include <thread>
#include <atomic>
ZK_FILTER(limit)
using namespace pbt;
using zk::Server;
static std::atomic<long> g_clock(1000000);
static thread_local long t_slept = 0;
extern "C" time_t __wrap_time(time_t *t) { time_t v = g_clock; if (t) *t = v; return v; }
extern "C" unsigned __wrap_sleep(unsigned s) { t_slept += s; return 0; }
struct Lim {
    int bw = 0, pdu = 0, search = 0, retrieve = 0; bool split = false;
    std::string xml() const {
        std::string r; auto at = [](const char *n, int v) { return v ? std::string(" ") + n + "=\"" + std::to_string(v) + "\"" : std::string(); };
        if (split) return "<filter type=\"limit\"><limit" + at("bandwidth", bw) + at("pdu", pdu) + "/><limit" + at("search", search) + at("retrieve", retrieve) + "/></filter>";
        return "<filter type=\"limit\"><limit" + at("retrieve", retrieve) + at("bandwidth", bw) + at("search", search) + at("pdu", pdu) + "/></filter>";
    }
};
// the model of one session
struct Count {
    std::vector<std::pair<long, long> > b, p, s;
    static long sum(std::vector<std::pair<long, long> > &v) { long t = 0; for (auto &e : v) if (e.first >= g_clock - 60) t += e.second; return t; }
    long delay(const Lim &l, bool srch, long bytes) {
        if (srch) s.emplace_back(g_clock, 1);
        b.emplace_back(g_clock, bytes); p.emplace_back(g_clock, 1); long r = 0;
        if (l.search) r += sum(s) / l.search;
        if (l.bw) r += sum(b) / l.bw;
        if (l.pdu && sum(p) > l.pdu) r = std::max<long>(r, l.pdu >= 60 ? 1 : 60 / l.pdu);
        return r;
    }
};
struct World {
    std::unique_ptr<zk::Net> net; Server srv; long asked = -1; std::string raw;
    World(const Lim &l) {
        g_clock = 1000000; t_slept = 0; net.reset(new zk::Net({&metaproxy_1_filter_limit}, zk::route("start", l.xml() + zk::hook("b")))); srv.hits = [](const std::string &, const std::vector<std::string> &, const std::string &) { return 1000; };
        zk::hooks().fn = [this](const zk::Hook *h, zk::mp::Package &p) { srv.process(h->label, p); };
    }
    ~World() { zk::hooks().fn = nullptr; }
};
static Lim limits(Ctx &x)
{
    Lim l; l.split = x.coin(); if (x.chance(2, 3)) l.search = x.coin() ? x.range(1, 5) : x.range(1, 40); if (x.coin()) l.bw = x.coin() ? x.range(50, 2000) : x.range(2000, 60000); if (x.coin()) l.pdu = x.coin() ? x.range(1, 8) : x.pick({59, 60, 61, 100, 20, 30, 45});
    if (x.coin()) l.retrieve = x.range(1, 30); return l;
}
struct Sess { zk::Client c; Count n; std::string peer; bool over = false, has = false; Sess(World &w, const std::string &p) : c(*w.net, p), peer(p) {} };
static void histories(Ctx &x)
{
    Lim l = limits(x); World w(l); x.desc << l.xml() << ": "; std::vector<std::unique_ptr<Sess> > cl; int made = 0; bool slept = false, free_ = false; std::string drop;
    long seen_num = -1, seen_start = -1; w.srv.seen = [&](const std::string &, zk::mp::Package &, Z_APDU *a) { if (a->which == Z_APDU_presentRequest) { seen_num = (long) *a->u.presentRequest->numberOfRecordsRequested; seen_start = (long) *a->u.presentRequest->resultSetStartPoint; } };
    w.srv.fault = [&](const std::string &, Server::Ses &, Z_APDU *) { return drop; };
    for (int n = x.coin() ? x.range(1, 30) : x.range(1, 90); n > 0; n--) {
        std::vector<Sess *> live; for (auto &s : cl) if (!s->over) live.push_back(s.get());
        int k = x.weighted({2, 14, 2, 1, 3}); zk::Mem o; Z_APDU *a = 0; Sess *s = 0; std::string what;
        if (k == 4) { int d = x.pick({1, 2, 5, 20, 30, 59, 61, 100}); g_clock += d; x.desc << "+" << d << "s "; continue; }
        if (k == 0 || live.empty()) { if (live.size() >= 4) continue; cl.emplace_back(new Sess(w, "10.0.0." + std::to_string(++made))); s = cl.back().get(); a = zk::init(o); what = "init"; }
        else s = live[x.range(0, (int) live.size() - 1)];
        if (k == 2 && !a) { x.desc << "hangup" << s->peer << " "; s->c.hangup(); s->over = true; t_slept = 0; continue; }
        if (k == 3 && !a) { a = zk::close(o); what = "close"; }
        bool srch = false; long ask = -1;
        if (!a) {
            int q = x.weighted({5, 4, 2}); 
            if (q == 0) { zk::Search sr; sr.query = x.str1("abc", 40); sr.ssub = x.chance(1, 4) ? 0 : 0; if (x.chance(1, 3)) { sr.lslb = 2000; sr.mspn = x.range(0, 20); } a = zk::search(o, sr); srch = true; what = "search"; }
            else if (q == 1) { zk::Present p; p.start = x.range(1, 20); ask = p.num = x.coin() ? x.range(0, 40) : l.retrieve ? x.range(std::max(0, l.retrieve - 1), l.retrieve + 1) : 3; if (x.chance(1, 30)) ask = p.num = x.pick({-1, 2147483647}); a = zk::present(o, p); what = "present" + std::to_string(p.num); }
            else { zk::Scan sc; sc.num = x.range(0, 30); a = zk::scan(o, sc); what = "scan"; }
            if (x.chance(1, 25)) { drop = x.pick({"drop", "vanish"}); what += "(lost)"; }
        }
        yazpp_1::GDU rq(a); long sz = (long) zk::encode(rq.get()).size(), capped = ask >= 0 && l.retrieve && ask > l.retrieve ? l.retrieve : ask; seen_num = -2; t_slept = 0;
        Z_GDU *g = s->c.send(a); long got = t_slept; sz += (long) zk::encode(g).size(); std::string d0 = drop; drop = "";
        long want = s->n.delay(l, srch, sz); x.desc << s->peer << ":" << what << "=" << want << " ";
        x.eq(got, want, "seconds of delay after " + what); (want ? slept : free_) = true; if (srch) s->has = true;
        if (ask != -1 || what.compare(0, 7, "present") == 0) { if (d0 != "drop" && d0 != "vanish") { x.eq(seen_num, capped, "records asked of the server"); Z_PresentResponse *r = zk::present_of(g); x.check(r, "present answered with " + zk::print(g)); if (s->has && capped >= 0 && capped < 900) x.eq((long) *r->numberOfRecordsReturned, capped, "records"); } }
        if (!d0.empty() || what == "close") { x.check(s->c.closed, "the server closed the session, the filter did not"); s->over = true; s->c.gone = true; x.label("closed"); continue; }
        x.check(g && g->which == Z_GDU_Z3950 && g->u.z3950->which == zk::response_type(a->which) && !s->c.closed, "answered with " + zk::print(g));
    }
    x.nontrivial = slept && free_; if (slept) x.label("delayed");
    for (auto &s : cl) if (!s->over) s->c.hangup();
    x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]);
}
// at the same time; all in the same minute
static void threads(Ctx &x)
{
    Lim l = limits(x); l.bw = 0; World w(l); int T = x.range(2, 5); std::vector<std::vector<int> > todo(T); std::vector<std::string> bad(T); std::vector<std::thread> th; x.nontrivial = true; std::atomic<int> go(0);
    for (auto &t : todo) for (int i = x.range(1, 20); i > 0; i--) t.push_back(x.weighted({4, 3, 1}));
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
        try {
            go++; while (go < T) {}
            std::unique_ptr<Sess> s; int made = 0;
            for (int k : todo[t]) {
                zk::Mem o; Z_APDU *a; bool fresh = !s; if (fresh) { s.reset(new Sess(w, "10." + std::to_string(t) + ".0." + std::to_string(made++))); a = zk::init(o); } else if (k == 2) a = zk::close(o); else a = k == 0 ? zk::search(o, zk::Search()) : zk::scan(o, zk::Scan());
                t_slept = 0; s->c.send(a); long got = t_slept, want = s->n.delay(l, a->which == Z_APDU_searchRequest, 0); if (got != want) throw Fail("delay of " + std::to_string(got) + " instead of " + std::to_string(want));
                if (a->which == Z_APDU_close) { s->c.gone = true; s.reset(); }
            }
        } catch (Fail &f) { bad[t] = f.what(); }
    });
    for (auto &t : th) t.join();
    for (auto &b : bad) if (!b.empty()) x.fail(b);
    x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]);
}
static void config(Ctx &x)
{
    x.nontrivial = true; bool bad = x.coin(), threw = false; std::string c = bad ? x.pick({"<limit searches=\"2\"/>", "<limits/>", "<limit search=\"1\" pdus=\"3\"/>", "<x/>", "<limit/><bandwidth>3</bandwidth>"}) : x.pick({"<limit/>", "", "<limit search=\"1\"/>", "<limit bandwidth=\"1\" pdu=\"2\" search=\"3\" retrieve=\"4\"/>"}); x.desc << c;
    try { zk::Net n({&metaproxy_1_filter_limit}, zk::route("start", "<filter type=\"limit\">" + c + "</filter>")); } catch (zk::mp::filter::FilterException &) { threw = true; }
    x.eq(threw, bad, "configuration refused");
}
int main(int argc, char **argv)
{
    zk::quiet();
    Check c; c.id = "C15";
    c.add("histories", 6000, 150000, "delayed and undelayed requests", histories)
     .add("threads", 200, 4000, "all (concurrent sessions)", threads, false)
     .add("config", 60, 300, "all", config);
    return run(c, argc, argv);
}
