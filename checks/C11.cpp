// SOURCES: kit filter_session_shared
// LINK: -Wl,--wrap=time
// VARIANTS: asan tsan
// Shared sessions: sharing is invisible to clients and never crosses credentials or targets.
#include "../models/zkit.hpp"
#include <thread>
#include <atomic>
#include <chrono>
#include <algorithm>
ZK_FILTER(session_shared)
using namespace pbt;
using zk::Server;
static std::atomic<long> g_clock(1000000);
extern "C" time_t __wrap_time(time_t *t) { time_t v = g_clock; if (t) *t = v; return v; }

struct Cred { int kind = 0; std::vector<std::string> vhosts; std::string text() const { return kind == 0 ? "none" : kind == 1 ? "open:u/p" : kind == 2 ? "open:u/q" : kind == 3 ? "idpass:u//p" : "idpass:u/g/p"; } };
struct Conf { int rttl = 30, rmax = 10, sttl = 90, smax = 100; bool opt = true, restart = false, ignore = false; int pms = 0, mrs = 0;
    std::string xml() const { std::ostringstream s; s << "<filter type=\"session_shared\"><resultset ttl=\"" << rttl << "\" max=\"" << rmax << "\" optimizesearch=\"" << (opt ? "true" : "false") << "\" restart=\"" << (restart ? "true" : "false") << "\"/><session ttl=\"" << sttl << "\" max=\"" << smax << "\"/><init";
        if (ignore) s << " ignore-auth=\"true\""; if (pms) s << " preferred-message-size=\"" << pms << "\""; if (mrs) s << " maximum-record-size=\"" << mrs << "\""; s << "/></filter>"; return s.str(); } };
struct Op { int kind = 0; zk::Search s; zk::Present p; zk::Scan sc; std::string fault; int times = 1; long tick = 0; };
static const char *SETS[] = {"default", "1", "s2"};
static long hits_of(const std::string &ident, const std::vector<std::string> &dbs, const std::string &q) { return (long) (pbt::hash(ident + Server::join(dbs) + q) % 17 + 2); }
static std::vector<std::string> DBS[] = {{"A"}, {"B"}, {"A", "B"}};
static Op gen_op(Ctx &x, bool faults)
{
    Op o; o.kind = x.weighted({10, 12, 2, 1}); std::string ref = x.coin() ? x.str1("abc01", 4) : "";
    if (o.kind == 0) {
        o.s.set = SETS[x.range(0, 2)]; o.s.dbs = DBS[x.weighted({6, 2, 1})]; o.s.replace = !x.chance(1, 6); o.s.ref = ref;
        o.s.query = x.pick({"a", "b", "c", "@and a b", "@set default", "@and @set 1 c", "@or a @set s2", "@attr 1=4 d"});
        o.s.syn = x.pick({"", "xml"}); o.s.info = x.pick({"", "", "", "f1", "f2"}); if (x.chance(1, 4)) { o.s.ssub = x.range(0, 20); o.s.lslb = o.s.ssub + 5; o.s.mspn = 2; }
    } else if (o.kind == 1) { o.p.set = SETS[x.range(0, 2)]; o.p.start = x.range(1, 8); o.p.num = x.range(0, 6); o.p.syn = x.pick({"xml", "usmarc", "", "sutrs"}); o.p.esn = x.pick({"", "B", "F"}); o.p.ref = ref; }
    else if (o.kind == 2) { o.sc.dbs = DBS[x.range(0, 2)]; o.sc.num = x.range(1, 4); o.sc.ref = ref; }
    else o.tick = x.pick({1, 10, 31, 200});
    if (faults && o.kind < 3 && x.chance(1, 7)) { o.fault = x.pick({"diag:any", "diag:2", "drop", "vanish", "initdiag", "initvanish", "2+init"}); if (o.fault == "diag:any") o.fault = zk::any_diag(x); o.times = x.range(1, 2); if (o.fault == "2+init") o.times = 2; }
    return o;
}
static std::string show(const Op &o)
{
    std::ostringstream s;
    if (o.kind == 0) s << "search(" << (o.s.info.empty() ? "" : "info " + o.s.info + ", ") << o.s.set << ", " << o.s.query << ", " << Server::join(o.s.dbs) << (o.s.replace ? "" : ", no replace") << ")";
    else if (o.kind == 1) s << "present(" << o.p.set << ", " << o.p.start << "+" << o.p.num << ", " << o.p.syn << "," << o.p.esn << ")";
    else if (o.kind == 2) s << "scan(" << Server::join(o.sc.dbs) << ")"; else s << "tick " << o.tick;
    if (!o.fault.empty()) s << "!" << o.fault << "x" << o.times; return s.str();
}
// faults of the thread's current operation
struct Plan { std::string fault; int left = 0; std::vector<std::pair<int, std::string> > hit; std::vector<unsigned long> on; };
static thread_local Plan plan;
static thread_local const Cred *cred;
struct World {
    Conf conf; Server srv; std::unique_ptr<zk::Net> net; bool badauth = false;
    void start() {
        plan = Plan(); cred = 0;
        srv.one_peer = false; srv.hits = hits_of;
        srv.fault = [this](const std::string &, Server::Ses &, Z_APDU *a) -> std::string {
            if (plan.left <= 0) return ""; bool in = a->which == Z_APDU_initRequest; const std::string &f = plan.fault; std::string r;
            if (in && f == "initdiag") r = "diag:1011"; else if (in && f == "initvanish") r = "vanish";
            else if (f == "2+init") r = plan.hit.empty() ? (a->which == Z_APDU_searchRequest ? "diag:2" : "") : in ? "vanish" : "";
            else if (!in && f.compare(0, 4, "init") != 0) r = f;
            if (!r.empty()) { plan.left--; plan.hit.push_back({a->which, r}); }
            return r;
        };
        srv.seen = [this](const std::string &, zk::mp::Package &p, Z_APDU *a) {
            plan.on.push_back(p.session().id()); std::string want = !cred || conf.ignore ? "none" : cred->text();
            std::string got = a->which == Z_APDU_initRequest ? zk::auth_text(a->u.initRequest->idAuthentication) : srv.ses[p.session().id()].auth;
            if (got != want) { srv.error(std::string(zk::name(a->which)) + " of a client with credentials " + want + " goes to a session opened with " + got); }
        };
        srv.echo = true; zk::hooks().fn = [this](const zk::Hook *h, zk::mp::Package &p) { srv.process(h->label, p); };
        net.reset(new zk::Net({&metaproxy_1_filter_session_shared}, zk::route("start", conf.xml() + zk::hook("b"))));
    }
    ~World() { net.reset(); zk::hooks().fn = nullptr; }
};
struct Sess {
    World &w; Cred cr; zk::Client c; bool over = false, loose = false;
    struct St { std::vector<std::string> dbs; std::string pqf, query; long hits; };
    std::map<std::string, St> sets; std::string ident;
    Sess(World &w, const Cred &cr, int no) : w(w), cr(cr), c(*w.net, "10.0.0." + std::to_string(no)) { Server::Ses s; s.vhosts = cr.vhosts; ident = Server::ident("b", s); }
    void init(Ctx &x, unsigned mask = 63, long pms = 4000) {
        zk::Mem o; std::vector<int> all = {Z_Options_search, Z_Options_present, Z_Options_namedResultSets, Z_Options_scan, Z_Options_sort, Z_Options_delSet}, opts; for (int i = 0; i < 6; i++) if (mask >> i & 1) opts.push_back(all[i]);
        Z_APDU *a = zk::init(o, opts, "i" + std::to_string(c.s.id())); Z_InitRequest *r = a->u.initRequest; *r->preferredMessageSize = pms; *r->maximumRecordSize = pms + 1;
        if (cr.kind == 1) r->idAuthentication = zk::auth_open(o, "u/p"); if (cr.kind == 2) r->idAuthentication = zk::auth_open(o, "u/q");
        if (cr.kind == 3) r->idAuthentication = zk::auth_idpass(o, "u", "", "p"); if (cr.kind == 4) r->idAuthentication = zk::auth_idpass(o, "u", "g", "p");
        zk::set_vhosts(o, &r->otherInfo, cr.vhosts); cred = &cr;
        Z_GDU *g = c.send(a); Z_InitResponse *ir = zk::init_of(g); x.check(ir, "init answered with " + zk::print(g));
        x.eq(zk::get_ref(g->u.z3950), "i" + std::to_string(c.s.id()), "reference id of the init response");
        if (!*ir->result) { x.check(c.closed, "refused client not closed"); x.check(!plan.hit.empty() || loose, "init refused"); over = true; return; }
        x.check(!c.closed, "session closed by init");
        for (int i = 0; i < 6; i++) if (!(mask >> i & 1)) x.check(!ODR_MASK_GET(ir->options, all[i]), "init response has option " + std::to_string(all[i]) + " that the client did not ask for"); else if (i < 2) x.check(ODR_MASK_GET(ir->options, all[i]), "init response lacks option " + std::to_string(all[i]));
        x.check(*ir->preferredMessageSize <= pms && *ir->maximumRecordSize <= pms + 1, "sizes of the init response exceed what the client offered");
    }
    std::string expand(const std::string &q, const std::vector<std::string> &dbs, std::string &missing) {
        size_t k = q.find("@set "); if (k == std::string::npos) return q;
        size_t e = q.find(' ', k + 5); std::string nm = q.substr(k + 5, e == std::string::npos ? e : e - k - 5); auto it = sets.find(nm);
        if (it == sets.end() || it->second.dbs != dbs) { missing = nm; return q; }
        return q.substr(0, k) + it->second.pqf + (e == std::string::npos ? "" : q.substr(e));
    }
    std::string want_fault(const std::string &what) {   // diagnostic that the faults of this operation lead to; "*" any with code 2
        if (plan.hit.empty()) return ""; auto &h = plan.hit.back(); std::string n = h.first == Z_APDU_initRequest ? "init" : h.first == Z_APDU_searchRequest ? "search" : h.first == Z_APDU_scanRequest ? "scan" : "present";
        if (n == "init") return "*";
        if (n == "search" && h.second == "diag:2" && w.conf.restart && plan.hit.size() == 1) return "";
        if (h.second.compare(0, 5, "diag:") == 0) return h.second.substr(5) + ":" + n;
        return "2:session_shared: target closed connection during " + n;
    }
    int open_here() { std::lock_guard<std::mutex> lk(w.srv.m); int n = 0; for (auto &s : w.srv.ses) n += s.second.inited && !s.second.closed && s.second.vhosts == cr.vhosts && s.second.auth == (w.conf.ignore ? "none" : cr.text()); return n; }
    bool diag_ok(Ctx &x, const std::string &got, const std::string &want, const std::string &what) {    // true: failed as it should
        if (got == "2:session_shared: all sessions in use") { x.check(loose || open_here() >= w.conf.smax, what + " says all sessions are in use, but only " + std::to_string(open_here()) + " of " + std::to_string(w.conf.smax) + " are open"); return true; }
        if (want == "*") { if (got.empty()) x.check(plan.hit.size() == 1 && w.conf.restart, what + " succeeded although no session could be opened"); else x.eq(got.substr(0, 2), std::string("2:"), "diagnostic of " + what + " when no session can be opened"); return !got.empty(); }
        x.eq(got, want, "diagnostic of " + what); return !got.empty();
    }
    void records(Ctx &x, const zk::Recs &r, const St &st, long start, long num, const std::string &syn, const std::string &esn, bool cap) {
        zk::Mem o; if (cap) x.check((long) r.body.size() <= num && (num == 0 || r.body.size() > 0), "number of records " + std::to_string(r.body.size())); else x.eq((long) r.body.size(), num, "number of records");
        for (size_t i = 0; i < r.body.size(); i++) {
            x.eq(r.body[i], Server::body(ident, st.dbs, st.query, start + i, zk::oid_text(zk::syntax(o, syn.empty() ? "xml" : syn)), esn.empty() ? "-" : esn), "record " + std::to_string(start + i));
            x.eq(r.db[i], st.dbs[0], "database of record");
        }
    }
    void step(Ctx &x, const Op &op) {
        cred = &cr; plan = Plan(); plan.fault = op.fault; plan.left = op.fault.empty() ? 0 : op.times; zk::Mem o;
        if (op.kind == 3) { g_clock += op.tick; return; }
        if (op.kind == 0) {
            Z_GDU *g = c.send(zk::search(o, op.s)); Z_SearchResponse *r = zk::search_of(g); x.check(r, "search answered with " + zk::print(g)); x.eq(zk::get_ref(g->u.z3950), op.s.ref, "reference id"); x.check(!c.closed, "session closed by search");
            zk::Recs rr = zk::recs(r->records);
            if (sets.count(op.s.set) && !op.s.replace) { x.eq(rr.diag, std::string("21"), "diagnostic of search on an existing set without replace"); return; }
            std::string missing, old = op.s.set; sets.erase(old); std::string q = expand(op.s.query, op.s.dbs, missing);
            if (!missing.empty()) { x.eq(rr.diag, "30:" + missing, "diagnostic of a query on a set that does not exist"); return; }
            if (diag_ok(x, rr.diag, want_fault("search"), "search")) { x.check(!*r->searchStatus, "status of failed search"); return; }
            if (plan.hit.size() == 1 && plan.on.size() >= 2 && plan.hit[0].second == "diag:2") x.check(plan.on.front() != plan.on.back(), "a failed search was repeated on the same session");
            St st; st.dbs = op.s.dbs; st.pqf = q; st.query = zk::query_text(zk::pqf(o, q)); st.hits = hits_of(ident, st.dbs, st.query); sets[op.s.set] = st;
            x.eq((long) *r->resultCount, st.hits, "result count"); x.check(*r->searchStatus, "status of search"); x.eq(zk::oi_text(r->additionalSearchInfo), "re:" + op.s.info + ":" + st.query, "additional search information of the answer");
        } else if (op.kind == 1) {
            Z_GDU *g = c.send(zk::present(o, op.p)); Z_PresentResponse *r = zk::present_of(g); x.check(r, "present answered with " + zk::print(g)); x.eq(zk::get_ref(g->u.z3950), op.p.ref, "reference id"); x.check(!c.closed, "session closed by present");
            zk::Recs rr = zk::recs(r->records); auto it = sets.find(op.p.set);
            if (it == sets.end()) { x.eq(rr.diag, "30:" + op.p.set, "diagnostic of present of an unknown set"); return; }
            std::string want = want_fault("present"); if (want.empty() && op.p.num > 0 && op.p.start + op.p.num - 1 > it->second.hits) want = "13";
            if (rr.diag == "13" && want == "*") return;
            if (diag_ok(x, rr.diag, want, "present")) return;
            records(x, rr, it->second, op.p.start, op.p.num, op.p.syn, op.p.esn, (bool) w.srv.cap); x.eq((long) *r->numberOfRecordsReturned, (long) rr.body.size(), "number of records returned");
        } else {
            Z_GDU *g = c.send(zk::scan(o, op.sc));
            if (!plan.hit.empty() && (plan.hit[0].second == "drop" || plan.hit[0].second == "vanish") && plan.hit[0].first == Z_APDU_scanRequest) { x.check(c.closed, "target closed during scan but session is open"); over = true; return; }
            Z_ScanResponse *r = zk::scan_of(g); x.check(r, "scan answered with " + zk::print(g)); x.eq(zk::get_ref(g->u.z3950), op.sc.ref, "reference id"); std::string diag;
            if (r->entries && r->entries->num_nonsurrogateDiagnostics) diag = zk::diag_text(r->entries->nonsurrogateDiagnostics[0]->u.defaultFormat);
            std::string want = want_fault("scan"); if (want == "*") { x.check(!diag.empty(), "scan succeeded although no session could be opened"); return; }
            x.eq(diag, want, "diagnostic of scan"); if (!want.empty()) return; x.eq(r->entries->num_entries, op.sc.num, "scan entries");
            Odr_oct *t = r->entries->entries[0]->u.termInfo->term->u.general; x.eq(std::string((const char *) t->buf, t->len), ident + "|" + Server::join(op.sc.dbs) + "|0", "scan term");
        }
    }
};
static void no_errors(Ctx &x, World &w) { std::lock_guard<std::mutex> lk(w.srv.m); x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]); }
static void gen_world(Ctx &x, World &w)
{
    w.conf.rttl = x.pick({30, 0, 5, 1000}); w.conf.rmax = x.pick({10, 1, 2, 3}); w.conf.smax = x.pick({100, 1, 2, 3}); w.conf.sttl = 90; w.conf.opt = !x.chance(1, 5); w.conf.restart = x.coin(); w.conf.ignore = x.chance(1, 4);
    w.conf.pms = x.pick({0, 0, 2000, 90000}); w.conf.mrs = x.pick({0, 0, 2000, 90000}); w.srv.named = !x.chance(1, 3);
    if (x.chance(1, 4)) { int n = x.range(1, 3); w.srv.cap = [n](int k) { return k < n ? k : n; }; }
    x.desc << w.conf.xml() << (w.srv.named ? "" : " unnamed") << (w.srv.cap ? " capped " : " "); w.start();
}
static Cred gen_cred(Ctx &x, bool few) { Cred c; c.kind = few ? x.range(0, 1) : x.weighted({6, 2, 2, 1, 1}); if (x.chance(1, 4)) c.vhosts.push_back(x.pick({"h1", "h2/db"})); if (x.chance(1, 12)) c.vhosts.push_back("h3/" + std::string(x.range(900, 1500), 'x')); return c; }
static void histories(Ctx &x)
{
    World w; gen_world(x, w); int nc = x.range(1, 4); std::vector<std::unique_ptr<Sess> > cl; bool few = x.coin();
    for (int i = 0; i < nc; i++) {
        cl.emplace_back(new Sess(w, gen_cred(x, few), i + 1)); plan = Plan(); if (x.chance(1, 10)) { plan.fault = x.pick({"initdiag", "initvanish"}); plan.left = 1; }
        x.desc << "client " << cl.back()->cr.text() << "@" << cl.back()->cr.vhosts.size() << (plan.left ? "!" + plan.fault : "") << " "; cl.back()->init(x, x.chance(1, 3) ? x.range(0, 63) : 63, x.range(1000, 100000));
    }
    int n = x.range(1, 30), ok = 0;
    for (int i = 0; i < n; i++) {
        int k = nc == 1 ? 0 : x.range(0, nc - 1); Sess &s = *cl[k]; if (s.over) continue; Op op = gen_op(x, true); x.desc << k << ":" << show(op) << " ";
        if (op.kind == 1 && s.sets.count(op.p.set)) ok++;
        s.step(x, op); if (!plan.hit.empty()) x.label("fault " + plan.hit[0].second); no_errors(x, w);
        x.check(s.over || s.open_here() <= w.conf.smax, "more sessions open to a target than session max");
        if (x.chance(1, 25)) { s.c.hangup(); s.over = true; }
    }
    x.nontrivial = ok > 0; for (auto &s : cl) s->c.hangup();
    w.net.reset(); no_errors(x, w); x.eq(w.srv.open_sessions(), 0, "backend sessions open after the filter is gone"); zk::hooks().fn = nullptr;
}
// repeated searches and presents cost the target nothing
static void saving(Ctx &x)
{
    World w; w.conf.rttl = 1000; w.conf.rmax = x.range(1, 6); w.conf.smax = 100; w.srv.named = x.coin(); x.desc << w.conf.xml(); w.start();
    int nc = x.range(1, 4); std::vector<std::unique_ptr<Sess> > cl; for (int i = 0; i < nc; i++) { cl.emplace_back(new Sess(w, Cred(), i + 1)); cl.back()->init(x); }
    std::set<std::string> seen, recs; int reps = 0; x.eq(w.srv.inits, 1, "sessions opened for clients with the same credentials");
    for (int i = x.range(1, 25); i > 0; i--) {
        int k = x.range(0, nc - 1); Sess &s = *cl[k]; Op op = gen_op(x, false); op.s.replace = true; op.s.info.clear(); if (op.kind > 1) continue; if (op.kind == 1) op.p.syn = x.pick({"xml", "usmarc"});
        int b = w.srv.searches, bp = w.srv.presents; x.desc << k << ":" << show(op) << " "; bool had = op.kind == 1 && s.sets.count(op.p.set); s.step(x, op);
        if (op.kind == 0 && s.sets.count(op.s.set)) { bool nu = seen.insert(Server::join(op.s.dbs) + "|" + s.sets[op.s.set].query).second; reps += !nu; x.eq(w.srv.searches - b, nu ? 1 : 0, nu ? "searches for a new query" : "searches for a query already done"); }
        if (had) {
            auto &st = s.sets[op.p.set]; bool all = op.p.num > 0 && op.p.start + op.p.num - 1 <= st.hits; if (!all) continue;
            std::string base = Server::join(st.dbs) + "|" + st.query + "|" + op.p.syn + "|" + op.p.esn + "|";
            bool known = true; for (int j = 0; j < op.p.num; j++) known = recs.count(base + std::to_string(op.p.start + j)) && known; for (int j = 0; j < op.p.num; j++) recs.insert(base + std::to_string(op.p.start + j));
            x.eq(w.srv.presents - bp, known ? 0 : 1, known ? "presents for records already fetched" : "presents for new records"); reps += known; x.eq(w.srv.searches - b, 0, "searches done by a present");
        }
    }
    int cap = w.srv.named ? w.conf.rmax : 1, need = (int) ((seen.size() + cap - 1) / cap); if (need < 1) need = 1;
    x.eq(w.srv.open_sessions(), need, "sessions used for " + std::to_string(seen.size()) + " result sets"); x.nontrivial = reps > 0; no_errors(x, w); for (auto &s : cl) s->c.hangup();
}
static void threads(Ctx &x)
{
    World w; gen_world(x, w); bool hot = x.chance(1, 2); if (hot) { w.conf.sttl = 0; w.net.reset(); w.start(); }
    int T = x.range(2, 5); std::vector<std::vector<Op> > ops(T); std::vector<std::unique_ptr<Sess> > cl; std::vector<std::string> bad(T);
    for (int t = 0; t < T; t++) { for (int i = x.range(2, 12); i > 0; i--) ops[t].push_back(gen_op(x, x.chance(1, 3))); cl.emplace_back(new Sess(w, gen_cred(x, true), t + 1)); cl.back()->loose = true; }
    x.nontrivial = true; std::vector<std::thread> th; std::atomic<int> go(0);
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
        try {
            std::vector<uint32_t> none; Src src(none); Ctx y(src); go++; while (go < T) {}
            plan = Plan(); cl[t]->init(y); for (auto &o : ops[t]) { if (cl[t]->over) break; cl[t]->step(y, o); if (o.kind & 1) std::this_thread::yield(); } cl[t]->c.hangup();
        } catch (Fail &f) { bad[t] = f.what(); cl[t]->c.hangup(); }
    });
    for (auto &t : th) t.join();
    for (int t = 0; t < T; t++) if (!bad[t].empty()) { for (auto &o : ops[t]) x.desc << show(o) << " "; x.fail("client " + std::to_string(t) + ": " + bad[t]); }
    no_errors(x, w); w.net.reset(); x.eq(w.srv.open_sessions(), 0, "backend sessions open after the filter is gone"); zk::hooks().fn = nullptr;
}
// idle sessions end, and nobody notices
static void expiry(Ctx &x)
{
    World w; w.conf.sttl = 0; w.conf.rttl = x.pick({0, 5, 30}); w.conf.smax = x.pick({100, 2}); w.srv.named = x.coin(); w.conf.restart = x.coin(); x.desc << w.conf.xml(); w.start();
    int nc = x.range(1, 3); std::vector<std::unique_ptr<Sess> > cl; for (int i = 0; i < nc; i++) { Cred c; c.kind = x.range(0, 1); cl.emplace_back(new Sess(w, c, i + 1)); cl.back()->loose = true; cl.back()->init(x); }
    x.nontrivial = true;
    for (int i = x.range(2, 14); i > 0; i--) {
        int k = x.range(0, nc - 1);
        if (x.chance(1, 3)) {
            g_clock += 1 + x.range(0, 3); x.desc << "idle ";
            for (int j = 0; ; j++) { { std::lock_guard<std::mutex> lk(w.srv.m); if (!w.srv.open_sessions()) break; } if (j > 5000) x.fail("sessions stay open after their time to live"); std::this_thread::sleep_for(std::chrono::milliseconds(2)); }
            continue;
        }
        Op op = gen_op(x, false); x.desc << k << ":" << show(op) << " "; cl[k]->step(x, op); no_errors(x, w);
    }
    for (auto &s : cl) s->c.hangup(); w.net.reset(); x.eq(w.srv.open_sessions(), 0, "backend sessions open after the filter is gone");
}
// two clients want the same result set; the session that has it dies under the first
static void waiting(Ctx &x)
{
    struct Hold { World w; std::atomic<int> stage; std::string bad; std::unique_ptr<Sess> a, b; std::thread ta, tb; std::atomic<bool> done_a, done_b; };
    Hold *h = new Hold; h->stage = 0; h->done_a = h->done_b = false; World &w = h->w; w.conf.restart = x.coin(); w.srv.named = x.coin(); bool drop = x.chance(2, 3); int how = x.range(0, 1); x.desc << w.conf.xml() << (drop ? " session dies" : "") << how; w.start(); x.nontrivial = drop;
    h->a.reset(new Sess(w, Cred(), 1)); h->b.reset(new Sess(w, Cred(), 2)); h->a->loose = h->b->loose = true; h->a->init(x); plan = Plan(); h->b->init(x);
    Op s; s.kind = 0; s.s.dbs = {"A"}; s.s.query = "a"; h->a->step(x, s); h->b->step(x, s);
    zk::hooks().fn = [h](const zk::Hook *k, zk::mp::Package &p) {
        if (h->stage == 1 && p.request().get() && plan.fault == "hold") { h->stage = 2; while (h->stage < 3) std::this_thread::sleep_for(std::chrono::milliseconds(1)); if (h->a->over) { std::lock_guard<std::mutex> lk(h->w.srv.m); p.session().close(); h->w.srv.ses[p.session().id()].closed = true; return; } }
        h->w.srv.process(k->label, p);
    };
    h->stage = 1; h->a->over = drop;
    h->ta = std::thread([h] { plan = Plan(); plan.fault = "hold"; cred = &h->a->cr; zk::Mem o; zk::Present p; p.syn = "xml"; h->a->c.send(zk::present(o, p)); h->done_a = true; });
    while (h->stage < 2) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    h->tb = std::thread([h, how] { try { std::vector<uint32_t> none; Src src(none); Ctx y(src); Op p; p.kind = how; p.p.syn = "xml"; p.p.start = 2; p.s.dbs = {"A"}; p.s.query = "a"; h->b->step(y, p); } catch (Fail &f) { h->bad = f.what(); } h->done_b = true; });
    std::this_thread::sleep_for(std::chrono::milliseconds(x.range(0, 30))); h->stage = 3;
    for (int i = 0; i < 1000 && !(h->done_a && h->done_b); i++) std::this_thread::sleep_for(std::chrono::milliseconds(10));
    if (!h->done_b || !h->done_a) { h->ta.detach(); h->tb.detach(); x.fail("a client waits forever for a result set whose session is gone"); }
    h->ta.join(); h->tb.join(); std::string bad = h->bad; if (!bad.empty()) x.fail("second client: " + bad);
    h->a->over = false; h->a->c.hangup(); h->b->c.hangup(); no_errors(x, w); h->a.reset(); h->b.reset(); delete h;
}
int main(int argc, char **argv)
{
    zk::quiet(); Check c; c.id = "C11"; 
    c.add("histories", 12000, 400000, "at least one present of a set that a search created", histories)
     .add("saving", 4000, 80000, "at least one repeated search or present", saving)
     .add("threads", 400, 6000, "all (concurrent clients)", threads, false)
     .add("expiry", 250, 3000, "all (idle sessions expire)", expiry, false)
     .add("waiting", 120, 1500, "the session dies while another client waits for it", waiting, false);
    return run(c, argc, argv);
}
