// SOURCES: kit filter_load_balance
// VARIANTS: asan tsan
// Load balancing: a new session goes to the least loaded of its targets that answers, and stays there.
#include "../models/zkit.hpp"
#include <thread>
#include <atomic>
#include <condition_variable>
#include <algorithm>
ZK_FILTER(load_balance)
using namespace pbt;
using zk::Server;

static const std::vector<std::string> VH = {"h1", "h2:210/x", "h3/Base", "h4", "h5:9999/a+b"};
struct World {
    std::unique_ptr<zk::Net> net; Server srv; std::set<std::string> down; std::vector<std::string> tried; std::string drop; bool badinit = false; std::string who, bad;
    // requests held in the server
    std::mutex hm; std::condition_variable hc; bool holding = false; int held = 0;
    // what the filter should know about each target
    struct Stat { int sessions = 0, packages = 0, deads = 0; };
    std::map<std::string, Stat> st;
    void gone(const std::string &t, bool dead) { Stat &s = st[t]; s.sessions--; if (dead) s.deads++; if (!s.sessions) st.erase(t); }
    std::string loads() { std::string r; for (auto &e : st) r += e.first + "=" + std::to_string(e.second.sessions) + "+" + std::to_string(e.second.packages) + "+" + std::to_string(e.second.deads) + " "; return r; }
    World() {
        net.reset(new zk::Net({&metaproxy_1_filter_load_balance}, zk::route("start", "<filter type=\"load_balance\"/>" + zk::hook("b"))));
        srv.fault = [this](const std::string &, Server::Ses &s, Z_APDU *a) -> std::string {
            if (a->which == Z_APDU_initRequest) { auto v = zk::vhosts_of(a->u.initRequest->otherInfo); if (v.size() == 1 && down.count(v[0])) return "closeinit"; return ""; }
            return drop;
        };
        srv.seen = [this](const std::string &, zk::mp::Package &, Z_APDU *a) {
            if (a->which != Z_APDU_initRequest) return;
            auto v = zk::vhosts_of(a->u.initRequest->otherInfo); tried.push_back(v.size() == 1 ? v[0] : "targets:" + std::to_string(v.size()));
            if (zk::auth_text(a->u.initRequest->idAuthentication) != "open:" + who) bad = "credentials " + zk::auth_text(a->u.initRequest->idAuthentication);
            const char *ip = yaz_oi_get_string_oid(&a->u.initRequest->otherInfo, yaz_oid_userinfo_client_ip, 1, 0); if (std::string(ip ? ip : "") != who) bad = "client address";
            if (zk::get_ref(a) != "ref" + who) bad = "reference id";
        };
        zk::hooks().fn = [this](const zk::Hook *h, zk::mp::Package &p) {
            Z_GDU *g = p.request().get();
            if (g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_initRequest) { std::lock_guard<std::mutex> lk(srv.m); auto it = srv.ses.find(p.session().id()); if (it != srv.ses.end() && it->second.closed) srv.ses.erase(it); }
            if (g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_searchRequest) { std::unique_lock<std::mutex> lk(hm); if (holding) { held++; hc.notify_all(); while (holding) hc.wait(lk); held--; } }
            srv.process(h->label, p);
        };
    }
    ~World() { zk::hooks().fn = nullptr; }
};
struct Sess {
    World &w; zk::Client c; std::string peer, target; bool over = false;
    Sess(World &w, const std::string &p) : w(w), c(*w.net, p), peer(p) {}
    void init(Ctx &x, std::vector<std::string> vh, bool predict = true) {
        zk::Mem o; Z_APDU *a = zk::init(o); Z_InitRequest *r = a->u.initRequest; r->idAuthentication = zk::auth_open(o, peer); zk::set_ref(o, a, "ref" + peer);
        yaz_oi_set_string_oid(&r->otherInfo, o, yaz_oid_userinfo_client_ip, 1, peer.c_str()); zk::set_vhosts(o, &r->otherInfo, vh);
        std::vector<std::string> want, rest = vh; std::string got;
        while (!rest.empty() && got.empty()) {
            size_t b = 0; auto cost = [&](const std::string &t) { auto it = w.st.find(t); return it == w.st.end() ? 0 : it->second.sessions + it->second.packages + it->second.deads; };
            for (size_t i = 1; i < rest.size(); i++) if (cost(rest[i]) < cost(rest[b])) b = i;
            want.push_back(rest[b]); if (!w.down.count(rest[b])) got = rest[b]; rest.erase(rest.begin() + b);
        }
        std::string before = w.loads(); w.tried.clear(); w.who = peer; w.bad = "";
        Z_InitResponse *ir = zk::init_of(c.send(a)); x.check(ir, "init answered with " + zk::print(c.last.get())); x.eq(zk::get_ref(c.last.get()->u.z3950), "ref" + peer, "reference id of the init response");
        if (predict) x.eq(Server::join(w.tried), Server::join(want), "targets tried, with loads " + before);
        x.check(w.bad.empty(), "init sent to a target: " + w.bad);
        if (got.empty()) {
            x.check(!*ir->result && c.closed, "init with no available target was accepted"); 
            Z_External *e = ir->userInformationField; (void) e; over = true;
        } else { x.check(*ir->result && !c.closed, "init failed although " + got + " is available"); target = got; w.st[got].sessions++; }
    }
    void request(Ctx &x, int kind) {       // 0 search, 1 present, 2 scan
        zk::Mem o; Z_APDU *a; zk::Search s; s.ref = "s1"; zk::Present p; p.ref = "s1"; zk::Scan sc; sc.ref = "s1";
        a = kind == 0 ? zk::search(o, s) : kind == 1 ? zk::present(o, p) : zk::scan(o, sc);
        Z_GDU *g = c.send(a); x.check(g && g->which == Z_GDU_Z3950, "no answer");
        if (!w.drop.empty()) { x.check(c.closed && zk::is_close(g), "the target closed the session, the filter did not"); over = true; w.gone(target, true); return; }
        x.check(!c.closed, "session closed"); x.eq(zk::name(g->u.z3950->which), zk::name(zk::response_type(a->which)), "kind of answer"); x.eq(zk::get_ref(g->u.z3950), std::string("s1"), "reference id");
        if (kind == 2) { Z_ListEntries *e = zk::scan_of(g)->entries; x.check(e && e->num_entries > 0, "no scan entries"); Odr_oct *t = e->entries[0]->u.termInfo->term->u.general; std::string s((const char *) t->buf, t->len); x.check(s.compare(0, target.size() + 2, "b@" + target) == 0, "scan answered by " + s + ", not by " + target); }
        if (kind == 1) { zk::Recs r = zk::recs(zk::present_of(g)->records); if (!r.body.empty()) x.check(r.body[0].compare(0, target.size() + 2, "b@" + target) == 0, "record from " + r.body[0] + ", not from " + target); }
    }
    void bye(Ctx &x, bool polite) {
        if (over) return;
        over = true;
        if (polite) { zk::Mem o; Z_GDU *g = c.send(zk::close(o)); x.check(zk::is_close(g) && c.closed, "close answered with " + zk::print(g)); c.gone = true; }
        else c.hangup();
        w.gone(target, false);
    }
};
static std::vector<std::string> targets(Ctx &x)
{
    std::vector<std::string> p = VH, v; int n = x.weighted({1, 5, 5, 2}) + 1;
    for (int i = 0; i < n; i++) { int k = x.range(0, (int) p.size() - 1); v.push_back(p[k]); p.erase(p.begin() + k); }
    return v;
}
static void histories(Ctx &x)
{
    World w; std::vector<std::unique_ptr<Sess> > cl; int n = x.range(1, 40), made = 0, open2 = 0; auto common = targets(x); bool same = x.coin();
    for (int i = 0; i < n; i++) {
        std::vector<Sess *> live; for (auto &s : cl) if (!s->over) live.push_back(s.get());
        int k = x.weighted({8, 3, 3, 3, 2, 2});
        if (k == 0 || live.empty()) {
            auto v = same ? common : targets(x); x.desc << "init " << Server::join(v) << "; "; cl.emplace_back(new Sess(w, "10.0.0." + std::to_string(++made))); cl.back()->init(x, v);
            if (v.size() > 1 && live.size() >= 2) open2++;
            x.label("init"); continue;
        }
        Sess &s = *live[x.range(0, (int) live.size() - 1)];
        if (k == 1) { int q = x.range(0, 2); x.desc << "request " << s.peer << "; "; s.request(x, q); }
        else if (k == 2) { x.desc << "close " << s.peer << "; "; s.bye(x, true); }
        else if (k == 3) { x.desc << "hangup " << s.peer << "; "; s.bye(x, false); }
        else if (k == 4) { x.desc << "lost " << s.peer << "; "; w.drop = "drop"; s.request(x, x.range(0, 2)); w.drop = ""; x.label("lost"); }
        else { std::string t = x.pick(VH); if (!w.down.erase(t)) w.down.insert(t); x.desc << (w.down.count(t) ? "down " : "up ") << t << "; "; }
        x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]);
    }
    x.nontrivial = open2 > 0;
    for (auto &s : cl) s->bye(x, false);
    x.eq(w.srv.open_sessions(), 0, "target sessions left open"); x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]);
}
// requests in progress count
static void inflight(Ctx &x)
{
    World w; std::vector<std::unique_ptr<Sess> > cl; auto v = targets(x); while (v.size() < 2) v = VH; int n = x.range(1, 6);
    for (int i = 0; i < n; i++) { auto t = x.coin() ? v : std::vector<std::string>{x.pick(v)}; cl.emplace_back(new Sess(w, "10.0.1." + std::to_string(i + 1))); cl.back()->init(x, t); x.desc << cl.back()->target << " "; }
    for (int round = x.range(1, 2); round > 0; round--) {
        int busy = 0; { std::lock_guard<std::mutex> lk(w.hm); w.holding = true; } std::vector<std::thread> th; std::vector<std::string> bad(n);
        x.desc << "busy:";
        for (int i = 0; i < n; i++) if (!cl[i]->over && x.coin()) { busy++; w.st[cl[i]->target].packages++; x.desc << " " << cl[i]->target; Sess *s = cl[i].get(); std::string *b = &bad[i]; th.emplace_back([s, b] { try { std::vector<uint32_t> none; Src src(none); Ctx y(src); s->request(y, 0); } catch (Fail &f) { *b = f.what(); } }); }
        { std::unique_lock<std::mutex> lk(w.hm); while (w.held < busy) w.hc.wait(lk); }
        std::string err;
        try { for (int k = x.range(1, 3); k > 0; k--) { cl.emplace_back(new Sess(w, "10.0.2." + std::to_string(cl.size()))); cl.back()->init(x, v); x.desc << " init->" << cl.back()->target; } } catch (Fail &f) { err = f.what(); }
        { std::lock_guard<std::mutex> lk(w.hm); w.holding = false; } w.hc.notify_all();
        for (auto &t : th) t.join();
        for (auto &b : bad) if (!b.empty() && err.empty()) err = b;
        if (!err.empty()) x.fail(err);
        for (auto &e : w.st) e.second.packages = 0;
        if (busy) x.nontrivial = true;
    }
    cl.emplace_back(new Sess(w, "10.0.3.1")); cl.back()->init(x, v);
    for (auto &s : cl) s->bye(x, x.coin());
    x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]);
}
// clients at the same time, then a quiet look at the loads
static void threads(Ctx &x)
{
    World w; int T = x.range(2, 5); std::vector<std::string> bad(T); std::vector<int> todo(T), keep(T); std::vector<std::thread> th; std::vector<std::vector<std::unique_ptr<Sess> > > mine(T); auto v = targets(x); while (v.size() < 2) v = VH;
    w.srv.seen = nullptr; x.nontrivial = true; std::atomic<int> go(0); std::mutex wm;
    for (int t = 0; t < T; t++) { todo[t] = x.range(1, 6); keep[t] = x.range(0, 63); }
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
        try {
            go++; while (go < T) {}
            for (int i = 0; i < todo[t]; i++) {
                zk::Mem o; mine[t].emplace_back(new Sess(w, "10.1." + std::to_string(t) + "." + std::to_string(i))); Sess &s = *mine[t].back(); Z_APDU *a = zk::init(o); zk::set_vhosts(o, &a->u.initRequest->otherInfo, v);
                Z_InitResponse *ir = zk::init_of(s.c.send(a)); if (!ir || !*ir->result) throw Fail("init failed");
                for (int k = 0; k < 3; k++) { Z_GDU *g = s.c.send(zk::search(o, zk::Search())); if (!zk::search_of(g)) throw Fail("search answered with " + zk::print(g)); }
                if (keep[t] >> i & 1) { if (i & 1) s.c.send(zk::close(o)); s.c.hangup(); s.over = true; }
            }
        } catch (Fail &f) { bad[t] = f.what(); }
    });
    for (auto &t : th) t.join();
    for (auto &b : bad) if (!b.empty()) x.fail(b);
    // count what is left, from the server's side
    for (auto &e : w.srv.ses) if (e.second.inited && !e.second.closed) w.st[e.second.vhosts[0]].sessions++;
    for (auto &m : mine) for (auto &s : m) if (!s->over) { s->target = w.srv.ses[s->c.s.id()].vhosts[0]; }
    w.srv.seen = [&](const std::string &, zk::mp::Package &, Z_APDU *a) { if (a->which == Z_APDU_initRequest) w.tried.push_back(Server::join(zk::vhosts_of(a->u.initRequest->otherInfo))); };
    std::vector<std::unique_ptr<Sess> > more;
    for (int i = 0; i < 4; i++) { more.emplace_back(new Sess(w, "10.2.0." + std::to_string(i))); more.back()->init(x, v); }
    for (auto &m : mine) for (auto &s : m) s->bye(x, false);
    for (auto &s : more) s->bye(x, false);
    x.eq(w.srv.open_sessions(), 0, "target sessions left open"); x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]);
}
int main(int argc, char **argv)
{
    zk::quiet();
    Check c; c.id = "C13";
    c.add("histories", 8000, 250000, "an init with a choice of targets while at least two sessions are open", histories)
     .add("inflight", 400, 10000, "at least one request in progress during an init", inflight, false)
     .add("threads", 200, 4000, "all (concurrent clients)", threads, false);
    return run(c, argc, argv);
}
