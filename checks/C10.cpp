// SOURCES: kit filter_virt_db
// VARIANTS: asan tsan
// Virtual databases: each database reaches its own targets, each result set keeps its own records.
#include "../models/zkit.hpp"
#include <thread>
#include <atomic>
#include <algorithm>
ZK_FILTER(virt_db)
using namespace pbt;
using zk::Server;

struct Entry { std::string pat; std::vector<std::string> targets; std::string route; };
static std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static bool glob(const char *p, const char *s)
{
    if (!*p) return !*s;
    if (*p == '*') { for (;; s++) { if (glob(p + 1, s)) return true; if (!*s) return false; } }
    return *s && (*p == '?' || *p == *s) && glob(p + 1, s + 1);
}
struct World {
    std::vector<Entry> maps; std::unique_ptr<zk::Net> net; Server srv; std::map<std::string, bool> named; bool pass = false, unnamed = false;
    std::set<std::string> auth;
    std::string xml() {
        std::string c = "<filter type=\"virt_db\">";
        if (pass) c += "<pass-vhosts>true</pass-vhosts>";
        for (auto &e : maps) {
            c += "<virtual" + (e.route.empty() ? "" : " route=\"" + e.route + "\"") + "><database>" + zk::esc(e.pat) + "</database>";
            for (auto &t : e.targets) c += "<target>" + zk::esc(t) + "</target>";
            c += "</virtual>";
        }
        c += "</filter>" + zk::hook("next");
        return zk::route("start", c) + zk::route("r1", zk::hook("r1")) + zk::route("r2", zk::hook("r2"));
    }
    const Entry *find(const std::string &db) const { for (auto &e : maps) if (glob(lower(e.pat).c_str(), lower(db).c_str())) return &e; return 0; }
    // what a list of databases means
    struct Plan { std::set<std::string> err; std::string label, ident; std::vector<std::string> targets, dbs; };
    Plan plan(const std::vector<std::string> &dbs) const {
        Plan p; const Entry *first = 0;
        for (auto &d : dbs) {
            const Entry *e = find(d);
            if (!e) { p.err.insert(std::to_string(YAZ_BIB1_DATABASE_DOES_NOT_EXIST) + ":" + d); continue; }
            if (first && first->route != e->route) p.err.insert(std::to_string(YAZ_BIB1_COMBI_OF_SPECIFIED_DATABASES_UNSUPP));
            if (!first) first = e;
            for (auto &t : e->targets) if (std::find(p.targets.begin(), p.targets.end(), t) == p.targets.end()) p.targets.push_back(t);
        }
        if (!p.err.empty()) return p;
        p.label = first->route.empty() ? "next" : first->route; p.ident = p.label + (p.targets.empty() ? "" : "@" + Server::join(p.targets));
        p.dbs = dbs;
        if (!p.targets.empty()) {
            size_t k = p.targets[0].find('/');
            if (k != std::string::npos && k + 1 < p.targets[0].size()) {
                p.dbs.clear(); std::string r = p.targets[0].substr(k + 1), w;
                for (char c : r + "+") if (c == '+') { p.dbs.push_back(w); w = ""; } else w += c;
            }
        }
        return p;
    }
};
static long hits_of(const std::string &ident, const std::vector<std::string> &dbs, const std::string &q) { return (long) (pbt::hash(ident + Server::join(dbs) + q) % 23); }

struct Op { int kind = 0; zk::Search s; zk::Present p; zk::Scan sc; std::string fault; bool coin = false; };
static const char *SETS[] = {"default", "1", "s2", "Set-3"};
static Op gen_op(Ctx &x, const std::vector<std::string> &dbnames, bool faults)
{
    Op o; o.kind = x.weighted({10, 8, 4, 1});
    auto dbs = [&] { std::vector<std::string> d; int n = x.weighted({12, 6, 2}) + 1; for (int i = 0; i < n; i++) d.push_back(x.pick(dbnames)); return d; };
    std::string ref = x.chance(1, 2) ? x.str1("abcdef01", 6) : "";
    if (o.kind == 0) {
        o.s.set = SETS[x.range(0, 3)]; o.s.query = x.pick({"a", "b", "@and a b", "@attr 1=4 c", "@or @not a b c"}); o.s.dbs = dbs(); o.s.replace = !x.chance(1, 5); o.s.ref = ref;
        if (x.chance(1, 2)) { o.s.ssub = x.range(0, 30); o.s.lslb = o.s.ssub + x.range(1, 30); o.s.mspn = x.range(0, 8); }
        o.s.syn = x.pick({"", "xml", "usmarc", "sutrs"}); o.s.esn_s = x.pick({"", "B", "F"}); o.s.esn_m = x.pick({"", "B", "F"});
    } else if (o.kind == 1) { o.p.set = SETS[x.range(0, 3)]; o.p.start = x.range(1, 12); o.p.num = x.range(0, 8); o.p.syn = x.pick({"", "xml", "usmarc"}); o.p.esn = x.pick({"", "B", "F"}); o.p.ref = ref; }
    else { o.sc.dbs = dbs(); o.sc.num = x.range(1, 6); o.sc.ref = ref; }
    if (faults && x.chance(1, 6)) { o.fault = x.pick({"diag", "drop", "vanish", "closeinit", "initdiag"}); if (o.fault == "diag") o.fault = zk::any_diag(x); }
    return o;
}
static std::string show(const Op &o)
{
    std::ostringstream s;
    if (o.kind == 0) s << "search(" << o.s.set << ", " << o.s.query << ", [" << Server::join(o.s.dbs) << "]" << (o.s.replace ? "" : ", no replace") << ", " << o.s.ssub << "/" << o.s.lslb << "/" << o.s.mspn << ", " << o.s.syn << ")";
    else if (o.kind == 1) s << "present(" << o.p.set << ", " << o.p.start << "+" << o.p.num << ", " << o.p.syn << "," << o.p.esn << ")";
    else if (o.kind == 2) s << "scan([" << Server::join(o.sc.dbs) << "], " << o.sc.num << ")";
    else s << "other";
    if (!o.fault.empty()) s << "!" << o.fault;
    return s.str();
}
struct Sess {     // one client and what it may expect
    World &w; zk::Client c; std::string peer;
    struct St { bool maybe = false; World::Plan plan; std::string query; long hits = 0; std::vector<std::string> fdbs; };
    std::map<std::string, St> sets; bool over = false; std::string last_init_fault, last_fault; int searches = 0; std::set<std::vector<std::string> > lists; int faults = 0;
    Sess(World &w, const std::string &peer) : w(w), c(*w.net, peer), peer(peer) {}
    std::string addr() { return c.o.get_address(); }
    void init(Ctx &x, bool coin) {
        zk::Mem o; std::vector<int> opts;
        std::vector<int> all = {Z_Options_search, Z_Options_present, Z_Options_namedResultSets, Z_Options_scan, Z_Options_sort, Z_Options_delSet};
        unsigned mask = coin ? (unsigned) x.range(0, 63) : 63; for (int i = 0; i < 6; i++) if (mask >> i & 1) opts.push_back(all[i]);
        Z_APDU *a = zk::init(o, opts, "ir"); Z_InitRequest *r = a->u.initRequest;
        int vers = coin ? x.range(1, 3) : 3; if (vers < 3) ODR_MASK_CLEAR(r->protocolVersion, Z_ProtocolVersion_3); if (vers < 2) ODR_MASK_CLEAR(r->protocolVersion, Z_ProtocolVersion_2);
        *r->preferredMessageSize = coin ? x.range(1000, 100000) : 5000; *r->maximumRecordSize = *r->preferredMessageSize + 7;
        r->implementationId = odr_strdup(o, "81"); r->implementationName = odr_strdup(o, ("client " + peer).c_str()); r->implementationVersion = odr_strdup(o, "v1.2");
        r->idAuthentication = (Z_IdAuthentication *) odr_malloc(o, sizeof(Z_IdAuthentication)); r->idAuthentication->which = Z_IdAuthentication_open; r->idAuthentication->u.open = odr_strdup(o, ("u/" + peer).c_str());
        yaz_oi_set_string_oid(&r->otherInfo, o, yaz_oid_userinfo_client_ip, 1, peer.c_str());
        Z_InitResponse *ir = zk::init_of(c.send(a)); x.check(ir, "init was answered with " + zk::print(c.last.get()));
        x.eq(zk::get_ref(c.last.get()->u.z3950), std::string("ir"), "reference id of the init response"); x.check(*ir->result, "init was refused");
        for (int i = 0; i < 6; i++) x.eq((bool) ODR_MASK_GET(ir->options, all[i]), (mask >> i & 1) && i < 4, "option " + std::to_string(all[i]) + " of the init response");
        x.eq((bool) ODR_MASK_GET(ir->protocolVersion, Z_ProtocolVersion_3), vers == 3, "version 3"); x.eq((bool) ODR_MASK_GET(ir->protocolVersion, Z_ProtocolVersion_2), vers >= 2, "version 2");
        x.eq((long) *ir->preferredMessageSize, (long) *r->preferredMessageSize, "preferred message size"); x.eq((long) *ir->maximumRecordSize, (long) *r->maximumRecordSize, "maximum record size");
        x.check(!c.closed, "session closed by init");
    }
    void records(Ctx &x, const zk::Recs &r, const St &st, long start, long num, const std::string &syn, const std::string &esn) {
        zk::Mem o; x.eq((long) r.body.size(), num, "number of records");
        for (long i = 0; i < num; i++) {
            x.eq(r.body[i], Server::body(st.plan.ident, st.plan.dbs, st.query, start + i, zk::oid_text(zk::syntax(o, syn.empty() ? "xml" : syn)), esn.empty() ? "-" : esn), "record " + std::to_string(start + i));
            // database name: the one whose target served the record, else the first
            std::string back = recdb(st.plan, start + i), want = st.fdbs.empty() ? back : st.fdbs[0];
            for (auto &d : st.fdbs) { const Entry *e = w.find(d); if (e && std::find(e->targets.begin(), e->targets.end(), back) != e->targets.end()) { want = d; break; } }
            x.eq(lower(r.db[i]), lower(want), "database name of record " + std::to_string(start + i) + " (backend says " + back + ")");
        }
    }
    static std::string recdb(const World::Plan &p, long pos) { size_t n = p.targets.size() + 1, k = pos % n; return k < p.targets.size() ? p.targets[k] : "plain"; }
    // returns false once the session is over
    bool step(Ctx &x, const Op &op) {
        zk::Mem o; last_fault.clear(); Z_GDU *g; std::string ref; if (op.kind == 0) lists.insert(op.s.dbs); if (op.kind == 2) lists.insert(op.sc.dbs);
        if (op.kind == 0) {
            ref = op.s.ref; g = c.send(zk::search(o, op.s)); searches++;
            if (dropped(x, g, "search")) return false;
            Z_SearchResponse *r = zk::search_of(g); x.check(r, "search answered with " + zk::print(g)); x.eq(zk::get_ref(g->u.z3950), ref, "reference id");
            zk::Recs rr = zk::recs(r->records); World::Plan pl = w.plan(op.s.dbs);
            auto it = sets.find(op.s.set);
            if (it != sets.end() && !op.s.replace && (rr.diag == "21" || !it->second.maybe)) { x.eq(rr.diag, std::string("21"), "search on an existing set without replace"); x.check(!*r->searchStatus, "failed search has status 1"); return true; }
            std::string want;
            if (!pl.err.empty()) { x.check(pl.err.count(rr.diag), "diagnostic <" + rr.diag + "> expected one of <" + *pl.err.begin() + ">"); want = rr.diag; }
            else if (last_fault == "initdiag") want = "1011:refused";
            else if (last_fault == "closeinit" || last_fault == "initvanish") want = std::to_string(YAZ_BIB1_ACCESS_TO_SPECIFIED_DATABASE_DENIED) + ":" + op.s.dbs[0];
            else if (last_fault.compare(0, 5, "diag:") == 0) want = last_fault.substr(5) + ":search";
            x.eq(rr.diag, want, "diagnostic of search");
            if (!want.empty()) {
                x.check(!*r->searchStatus, "failed search has status 1");
                if (last_fault.compare(0, 5, "diag:") == 0) sets.erase(op.s.set); else if (it != sets.end()) it->second.maybe = true;
                return true;
            }
            St st; st.plan = pl; st.query = zk::query_text(zk::pqf(o, op.s.query)); st.hits = hits_of(pl.ident, pl.dbs, st.query); st.fdbs = op.s.dbs; sets[op.s.set] = st;
            x.eq((long) *r->resultCount, st.hits, "result count"); x.check(*r->searchStatus, "successful search has status 0");
            Z_APDU *q = zk::search(o, op.s); std::string esn; long n = zk::piggyback_count(q->u.searchRequest, st.hits, esn); if (n > st.hits) n = st.hits;
            records(x, rr, st, 1, n, op.s.syn, esn); x.eq((long) *r->numberOfRecordsReturned, n, "number of records returned");
        } else if (op.kind == 1) {
            ref = op.p.ref; g = c.send(zk::present(o, op.p)); if (dropped(x, g, "present")) return false;
            Z_PresentResponse *r = zk::present_of(g); x.check(r, "present answered with " + zk::print(g)); x.eq(zk::get_ref(g->u.z3950), ref, "reference id");
            zk::Recs rr = zk::recs(r->records); auto it = sets.find(op.p.set); std::string nx = "30:" + op.p.set;
            if (it == sets.end()) { x.eq(rr.diag, nx, "present of an unknown set"); return true; }
            if (it->second.maybe && rr.diag == nx) return true;
            St &st = it->second; std::string want;
            if (last_fault.compare(0, 5, "diag:") == 0) want = last_fault.substr(5) + ":present";
            else if (op.p.num > 0 && op.p.start + op.p.num - 1 > st.hits) want = "13";
            x.eq(rr.diag, want, "diagnostic of present"); if (want.empty()) records(x, rr, st, op.p.start, op.p.num, op.p.syn, op.p.esn);
        } else if (op.kind == 2) {
            ref = op.sc.ref; g = c.send(zk::scan(o, op.sc)); if (dropped(x, g, "scan")) return false;
            Z_ScanResponse *r = zk::scan_of(g); x.check(r, "scan answered with " + zk::print(g)); x.eq(zk::get_ref(g->u.z3950), ref, "reference id");
            World::Plan pl = w.plan(op.sc.dbs); std::string diag, want;
            if (r->entries && r->entries->num_nonsurrogateDiagnostics) diag = zk::diag_text(r->entries->nonsurrogateDiagnostics[0]->u.defaultFormat);
            if (!pl.err.empty()) { x.check(pl.err.count(diag), "diagnostic <" + diag + "> expected one of <" + *pl.err.begin() + ">"); return true; }
            if (last_fault == "initdiag") want = "1011:refused";
            else if (last_fault == "closeinit" || last_fault == "initvanish") want = std::to_string(YAZ_BIB1_ACCESS_TO_SPECIFIED_DATABASE_DENIED) + ":" + op.sc.dbs[0];
            else if (last_fault.compare(0, 5, "diag:") == 0) want = last_fault.substr(5) + ":scan";
            x.eq(diag, want, "diagnostic of scan"); if (!want.empty()) return true;
            x.eq(r->entries->num_entries, op.sc.num, "number of scan entries");
            for (int i = 0; i < op.sc.num; i++) { Odr_oct *t = r->entries->entries[i]->u.termInfo->term->u.general; x.eq(std::string((const char *) t->buf, t->len), pl.ident + "|" + Server::join(pl.dbs) + "|" + std::to_string(i), "scan term"); }
        } else {
            bool second = op.coin; g = c.send(second ? zk::init(o) : zk::reply(o, Z_APDU_deleteResultSetRequest, zk::close(o)));
            x.check(zk::is_close(g) && *g->u.z3950->u.close->closeReason == Z_Close_protocolError, "a request out of place must be answered with close/protocol error, got " + zk::print(g));
            x.check(c.closed, "session stays open after a protocol error"); after(x); return false;
        }
        return true;
    }
    bool dropped(Ctx &x, Z_GDU *g, const char *what) {
        if (last_fault != "drop" && last_fault != "vanish") { x.check(!c.closed, std::string("session closed by ") + what); return false; }
        x.check(c.closed, std::string("the backend of a ") + what + " went away but the session is open");
        if (last_fault == "drop") x.check(zk::is_close(g), "the close of the backend was not passed on");
        after(x); return true;
    }
    void after(Ctx &x) { over = true; std::lock_guard<std::mutex> lk(w.srv.m); x.eq(w.srv.open_sessions(addr()), 0, "backend sessions left open by a closed session"); x.eq(w.srv.unclosed(addr()), 0, "backend sessions never closed, whose init failed"); }
    void finish(Ctx &x) { if (!over) { c.hangup(); after(x); } }
};
static void setup(Ctx &x, World &w, std::vector<std::string> &dbnames, bool faults)
{
    static const std::vector<std::string> pats = {"a", "B", "c*", "d?", "*x", "*", "DB1", "e-f.g"}, names = {"a", "A", "b", "cat", "C", "d1", "D22", "fox", "X", "db1", "zzz", "E-f.g"};
    static const std::vector<std::string> tg = {"h1", "h1/x", "h2:210/y+z", "h2", "unix:sock", "h3/Base", "h4/a+b+c", "h1/"};
    int n = x.range(1, 5);
    for (int i = 0; i < n; i++) { Entry e; e.pat = x.pick(pats); int k = x.weighted({10, 5, 2}) + 1; for (int j = 0; j < k; j++) e.targets.push_back(x.pick(tg)); e.route = x.pick({"", "", "r1", "r2"}); w.maps.push_back(e); }
    int m = x.range(1, 4); for (int i = 0; i < m; i++) dbnames.push_back(x.pick(names));
    // at least one database that exists
    { std::string s = w.maps[0].pat; for (auto &c : s) if (c == '*' || c == '?') c = 'k'; dbnames.push_back(s); dbnames.push_back(s); }
    w.unnamed = x.chance(1, 2); w.srv.named = !w.unnamed; for (int k : {Z_Options_sort, Z_Options_delSet, Z_Options_resourceReport, Z_Options_extendedServices, Z_Options_negotiationModel, Z_Options_concurrentOperations}) if (x.chance(1, 3)) w.srv.extra.push_back(k);
    w.srv.hits = hits_of;
    w.srv.recdb = [](const Server::Ses &s, long pos) { World::Plan p; p.targets = s.vhosts; return Sess::recdb(p, pos); };
    zk::hooks().fn = [&w](const zk::Hook *h, zk::mp::Package &p) { w.srv.process(h->label, p); };
    w.net.reset(new zk::Net({&metaproxy_1_filter_virt_db}, w.xml()));
    for (auto &e : w.maps) x.desc << "[" << e.pat << " -> " << Server::join(e.targets) << (e.route.empty() ? "" : " route " + e.route) << "] ";
    x.desc << (w.unnamed ? "no named sets; " : "");
}
static void histories(Ctx &x)
{
    World w; std::vector<std::string> dbnames; setup(x, w, dbnames, true);
    std::string fault; Sess *cur = 0;
    w.srv.fault = [&](const std::string &, Server::Ses &, Z_APDU *a) -> std::string {
        std::string f = fault; bool in = a->which == Z_APDU_initRequest;
        if (f.empty() || !cur) return "";
        if (in && f == "initdiag") { cur->last_fault = f; return "diag:1011"; }
        if (in && f == "closeinit") { cur->last_fault = f; return f; }
        if (in && f == "vanish") { cur->last_fault = "initvanish"; fault = ""; return f; }
        if (!in && (f.compare(0, 5, "diag:") == 0 || f == "drop" || f == "vanish")) { cur->last_fault = f; return f; }
        return "";
    };
    bool badinit = false;
    w.srv.seen = [&](const std::string &label, zk::mp::Package &, Z_APDU *a) {
        if (a->which != Z_APDU_initRequest || !cur) return;
        Z_InitRequest *r = a->u.initRequest;
        auto sv = [](const char *s) { return std::string(s ? s : ""); };
        if (!r->idAuthentication || r->idAuthentication->which != Z_IdAuthentication_open || sv(r->idAuthentication->u.open) != "u/" + cur->peer) badinit = true;
        if (sv(r->implementationName) != "client " + cur->peer || sv(r->implementationId) != "81" || sv(r->implementationVersion) != "v1.2" || !ODR_MASK_GET(r->options, Z_Options_search) || !ODR_MASK_GET(r->options, Z_Options_present)) badinit = true;
        const char *ip = yaz_oi_get_string_oid(&r->otherInfo, yaz_oid_userinfo_client_ip, 1, 0); if (sv(ip) != cur->peer) badinit = true;
        if (*r->maximumRecordSize != *r->preferredMessageSize + 7) badinit = true;
    };
    int nc = x.weighted({6, 3, 1}) + 1; std::vector<std::unique_ptr<Sess> > cl;
    for (int i = 0; i < nc; i++) { cl.emplace_back(new Sess(w, "10.0.0." + std::to_string(i + 1))); cur = cl.back().get(); cur->init(x, x.chance(1, 3)); }
    int n = x.range(1, 24), present_ok = 0;
    for (int i = 0; i < n; i++) {
        Sess &s = *cl[nc == 1 ? 0 : x.range(0, nc - 1)]; if (s.over) continue;
        cur = &s; Op op = gen_op(x, dbnames, true); if (op.kind == 3) { op.coin = x.coin(); if (!x.chance(1, 4)) continue; }
        x.desc << s.peer.back() << ":" << show(op) << " "; x.label(op.kind == 0 ? "search" : op.kind == 1 ? "present" : "scan");
        if (op.kind == 1 && s.sets.count(op.p.set)) present_ok++;
        fault = op.fault; s.step(x, op); fault = ""; if (!s.last_fault.empty()) s.faults++;
        if (!w.unnamed && !s.faults) { int k = 0; for (auto &e : w.srv.ses) k += e.second.peer == s.addr() && e.second.requests; x.check(k <= (int) s.lists.size(), "client uses " + std::to_string(k) + " connections for " + std::to_string(s.lists.size()) + " lists of databases"); } if (!s.last_fault.empty()) x.label("fault " + s.last_fault.substr(0, 4));
        x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]);
        x.check(!badinit, "the backend's init request does not carry what the client's init said");
    }
    x.nontrivial = present_ok > 0;
    for (auto &s : cl) { cur = s.get(); s->finish(x); }
    x.eq(w.srv.open_sessions(), 0, "backend sessions left open");
    x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]);
    zk::hooks().fn = nullptr;
}
// clients in threads of their own
static void threads(Ctx &x)
{
    World w; std::vector<std::string> dbnames; setup(x, w, dbnames, false);
    int T = x.range(2, 5); std::vector<std::vector<Op> > ops(T); std::vector<std::unique_ptr<Sess> > cl; std::vector<std::string> bad(T);
    for (int t = 0; t < T; t++) { int n = x.range(1, 12); for (int i = 0; i < n; i++) { ops[t].push_back(gen_op(x, dbnames, false)); if (ops[t].back().kind == 3) ops[t].pop_back(); } cl.emplace_back(new Sess(w, "10.0.1." + std::to_string(t + 1))); }
    x.nontrivial = true; std::vector<std::thread> th; std::atomic<int> go(0);
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
        try {
            std::vector<uint32_t> none; Src src(none); Ctx y(src); go++; while (go < T) {} 
            cl[t]->init(y, false); for (auto &o : ops[t]) { cl[t]->step(y, o); if (o.kind & 1) std::this_thread::yield(); } cl[t]->finish(y);
        } catch (Fail &f) { bad[t] = f.what(); cl[t]->c.gone = true; }
    });
    for (auto &t : th) t.join();
    for (int t = 0; t < T; t++) if (!bad[t].empty()) { for (auto &o : ops[t]) x.desc << show(o) << " "; x.fail("client " + std::to_string(t) + ": " + bad[t]); }
    x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]); x.eq(w.srv.open_sessions(), 0, "backend sessions left open");
    zk::hooks().fn = nullptr;
}
// several requests of one session at the same time: each gets its own answer
static void pipelined(Ctx &x)
{
    World w; std::vector<std::string> dbnames; setup(x, w, dbnames, false); w.srv.named = true;
    Sess s(w, "10.0.2.1"); s.init(x, false); std::string db = dbnames.back();
    for (int i = 0; i < 3; i++) { Op o; o.kind = 0; o.s.set = SETS[i]; o.s.dbs = {db}; o.s.query = "q" + std::to_string(i); s.step(x, o); }
    int T = x.range(2, 4); std::vector<std::string> bad(T); std::vector<std::vector<Op> > ops(T); std::vector<std::thread> th;
    for (int t = 0; t < T; t++) for (int i = x.range(1, 8); i > 0; i--) if (x.chance(1, 3)) { Op o; o.kind = 0; o.s.set = "own" + std::to_string(t); o.s.dbs = {x.chance(1, 2) ? db : dbnames[0]}; o.s.query = "p" + std::to_string(i); o.s.ref = "t" + std::to_string(t) + "." + std::to_string(i); ops[t].push_back(o); }
        else { Op o; o.kind = 1; o.p.set = SETS[x.range(0, 2)]; o.p.start = x.range(1, 10); o.p.num = x.range(0, 4); o.p.ref = "t" + std::to_string(t) + "." + std::to_string(i); ops[t].push_back(o); }
    x.nontrivial = true;
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
        try {
            std::vector<uint32_t> none; Src src(none); Ctx y(src);
            for (auto &op : ops[t]) {
                zk::Mem o; zk::mp::Package p(s.c.s, s.c.o); p.router(*w.net->r); p.request() = op.kind ? zk::present(o, op.p) : zk::search(o, op.s); p.move();
                Z_GDU *g = p.response().get();
                if (!op.kind) { Z_SearchResponse *r = zk::search_of(g); y.check(r, "search answered with " + zk::print(g)); y.eq(zk::get_ref(g->u.z3950), op.s.ref, "reference id"); World::Plan pl = w.plan(op.s.dbs); if (pl.err.empty()) y.eq((long) *r->resultCount, hits_of(pl.ident, pl.dbs, zk::query_text(zk::pqf(o, op.s.query))), "result count"); continue; }
                Z_PresentResponse *r = zk::present_of(g); y.check(r, "present answered with " + zk::print(g)); y.eq(zk::get_ref(g->u.z3950), op.p.ref, "reference id");
                zk::Recs rr = zk::recs(r->records); Sess::St st = s.sets.at(op.p.set); bool out = op.p.num > 0 && op.p.start + op.p.num - 1 > st.hits;
                y.eq(rr.diag, std::string(out ? "13" : ""), "diagnostic"); if (!out) s.records(y, rr, st, op.p.start, op.p.num, "", "");
            }
        } catch (Fail &f) { bad[t] = f.what(); }
    });
    for (auto &t : th) t.join();
    for (auto &b : bad) if (!b.empty()) x.fail(b);
    s.finish(x); x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]); zk::hooks().fn = nullptr;
}
// pass-vhosts, and what comes before an init
static void passing(Ctx &x)
{
    World w; w.pass = x.coin(); w.maps.push_back(Entry{"*", {"t/db"}, x.coin() ? "r1" : ""});
    std::vector<std::pair<std::string, std::string> > got;
    zk::hooks().fn = [&](const zk::Hook *h, zk::mp::Package &p) {
        Z_GDU *g = p.request().get(); got.push_back({h->label, zk::encode(g)}); zk::Mem o;
        if (g && g->which == Z_GDU_Z3950) { Z_APDU *a = g->u.z3950; p.response() = a->which == Z_APDU_initRequest ? zk::init_reply(o, a, 0, 0) : zk::reply(o, zk::response_type(a->which), a); }
    };
    w.net.reset(new zk::Net({&metaproxy_1_filter_virt_db}, w.xml()));
    zk::Client c(*w.net); bool vh = x.coin(), init_first = x.coin(); zk::Mem o; int n = x.range(1, 5); x.nontrivial = vh && w.pass;
    x.desc << (w.pass ? "pass " : "") << (vh ? "vhosts " : "") << (init_first ? "init first" : "") << n;
    auto through = [&](Z_APDU *a) { size_t k = got.size(); yazpp_1::GDU g(a); c.send(a); x.check(got.size() == k + 1 && got[k].first == "next", "request was not passed on once to the next filter"); x.eq(hex(got[k].second), hex(zk::encode(g.get())), "request as passed on"); };
    auto req = [&]() -> Z_APDU * { switch (x.range(0, 3)) { case 0: return zk::search(o, zk::Search()); case 1: return zk::present(o, zk::Present()); case 2: return zk::scan(o, zk::Scan()); default: return zk::reply(o, Z_APDU_deleteResultSetRequest, zk::close(o)); } };
    if (!init_first) through(req());
    Z_APDU *i = zk::init(o);
    if (vh) { std::list<std::string> l; for (int k = x.range(1, 3); k > 0; k--) l.push_back("h" + std::to_string(k)); int cat = 1; for (auto &s : l) yaz_oi_set_string_oid(&i->u.initRequest->otherInfo, o, yaz_oid_userinfo_proxy, cat++, s.c_str()); }
    if (vh && w.pass) { through(i); for (int k = 0; k < n; k++) through(req()); }
    else { size_t k = got.size(); c.send(i); x.eq(got.size(), k, "an init request handled here was passed on"); x.check(zk::init_of(c.last.get()), "init not answered"); }
    c.hangup(); zk::hooks().fn = nullptr;
}
int main(int argc, char **argv)
{
    zk::quiet();
    Check c; c.id = "C10";
    c.add("histories", 20000, 400000, "at least one present of a set that a search created", histories)
     .add("threads", 400, 6000, "all (concurrent clients)", threads, false)
     .add("pipelined", 300, 4000, "all (concurrent requests of one session)", pipelined, false)
     .add("passing", 1500, 20000, "init with target hosts and pass-vhosts on", passing);
    return run(c, argc, argv);
}
