// SOURCES: kit filter_auth_simple
// VARIANTS: asan tsan
// Simple authentication: nobody gets past without the right password, nor to databases or targets not granted.
#include "../models/zkit.hpp"
#include <fstream>
#include <thread>
#include <atomic>
#include <algorithm>
ZK_FILTER(auth_simple)
using namespace pbt;
using zk::Server;

static std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
typedef std::vector<std::string> V;
struct User { std::string pw; V dbs; };
struct World {
    std::map<std::string, User> users; std::map<std::string, V> targets; bool reg = false, treg = false, discard = false;
    std::unique_ptr<zk::Net> net; Server srv; std::map<std::string, std::string> last; V reached;
    ~World() { zk::hooks().fn = nullptr; }
};
static bool has(const V &l, const std::string &s) { for (auto &e : l) if (e == "*" || lower(e) == lower(s)) return true; return false; }
static const V DBS = {"a", "B", "foo", "Default", "db-1", "x y"}, TG = {"h1", "h2:210/x", "H3/Base", "h4"};
static V some(Ctx &x, const V &from) { V v; for (int n = x.weighted({2, 6, 5, 3, 1}); n > 0; n--) v.push_back(x.pick(from)); if (x.chance(1, 6)) v.push_back("*"); return v; }
static std::string comma(const V &v) { std::string r; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + v[i]; return r; }
static V uncomma(const std::string &s) { V v; std::string w; for (char c : s + ",") if (c == ',') { v.push_back(w); w = ""; } else w += c; return v; }
static std::string casing(Ctx &x, std::string s) { if (x.chance(1, 4)) for (auto &c : s) { if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; } return s; }
static std::string name(Ctx &x) { return x.chance(1, 2) ? x.pick({"ann", "bob", "Ann", "eve"}) : x.str1("abcXYZ019._ -", 6); }
static void put(const std::string &f, const std::string &t) { std::ofstream o(f, std::ios::binary); o << t; }
// writes register files, returns true when they are well formed
static bool setup(Ctx &x, World &w, std::string &file1, std::string &file2, bool bad)
{
    w.reg = !x.chance(1, 4); w.treg = !w.reg || x.coin(); w.discard = x.coin(); bool ok = true; static std::atomic<int> serial(0); int k = serial++ % 50;
    std::string d = pbt::scratch(); std::string t1, t2;
    auto noise = [&](std::string &t) { if (x.chance(1, 6)) t += "# comment: a:b:*\n"; if (x.chance(1, 8)) t += "\n"; };
    if (w.reg) {
        for (int n = x.range(1, 5); n > 0; n--) {
            noise(t1); std::string u = name(x); User us; us.pw = x.chance(1, 8) ? "" : x.str1("pqPQ01/ #", 5); us.dbs = some(x, DBS); if (u[0] == '#') u = "u" + u;
            int style = x.weighted({30, 1}); if (style && x.chance(1, 2)) while (comma(us.dbs).size() < 1200) us.dbs.push_back("long" + std::to_string(us.dbs.size()) + x.str("abc", 20));
            std::string line = u + ":" + us.pw + ":" + comma(us.dbs); w.users[u] = User{us.pw, uncomma(comma(us.dbs))}; t1 += line + "\n";
        }
        if (bad && x.coin()) { t1 += x.pick({"nobody\n", "no:databases\n"}); ok = false; }
        noise(t1); if (x.chance(1, 4) && t1.back() == '\n') t1.pop_back();
        file1 = d + "/users" + std::to_string(k); put(file1, t1);
    }
    if (w.treg) {
        for (int n = x.range(1, 4); n > 0; n--) {
            noise(t2); std::string u = w.users.empty() || x.chance(1, 4) ? name(x) : std::next(w.users.begin(), x.range(0, (int) w.users.size() - 1))->first; if (u[0] == '#') u = "u" + u; V l = some(x, TG);
            if (x.chance(1, 60)) while (comma(l).size() < 1200) l.push_back("long" + std::to_string(l.size()) + x.str("abc", 20));
            w.targets[u] = uncomma(comma(l)); t2 += u + ":" + comma(l) + "\n";
        }
        if (bad && x.coin()) { t2 += "nothing here\n"; ok = false; }
        file2 = d + "/targets" + std::to_string(k); put(file2, t2);
    }
    return ok;
}
static std::string config(World &w, const std::string &f1, const std::string &f2, const std::string &more = "")
{
    return "<filter type=\"auth_simple\">" + (w.reg ? "<userRegister>" + f1 + "</userRegister>" : "") + (w.treg ? "<targetRegister>" + f2 + "</targetRegister>" : "") + (w.discard ? "<discardUnauthorisedTargets/>" : "") + more + "</filter>" + zk::hook("b");
}
static void start(World &w, const std::string &f1, const std::string &f2)
{
    w.net.reset(new zk::Net({&metaproxy_1_filter_auth_simple}, zk::route("start", config(w, f1, f2))));
    w.srv.seen = [&w](const std::string &, zk::mp::Package &p, Z_APDU *a) {      // under the server's lock
        std::string r = zk::name(a->which), peer = p.origin().get_address();
        if (a->which == Z_APDU_initRequest) r += " " + Server::join(zk::vhosts_of(a->u.initRequest->otherInfo)) + " " + zk::auth_text(a->u.initRequest->idAuthentication);
        w.last[peer] = r;
    };
    zk::hooks().fn = [&w](const zk::Hook *h, zk::mp::Package &p) { w.srv.process(h->label, p); };
}
struct Cred { int kind = 0; std::string user, pw, group; };      // 0 none, 1 open, 2 id/password
static Cred gen_cred(Ctx &x, World &w)
{
    Cred c; c.kind = x.weighted({1, 6, 6});
    bool known = !w.users.empty() && x.chance(5, 6);
    if (known) { auto it = std::next(w.users.begin(), x.range(0, (int) w.users.size() - 1)); c.user = it->first; c.pw = x.chance(4, 5) ? it->second.pw : x.pick({"", "x", "*"}) + (x.coin() ? it->second.pw : ""); }
    else if (!w.targets.empty() && x.coin()) c.user = std::next(w.targets.begin(), x.range(0, (int) w.targets.size() - 1))->first;
    else { c.user = x.chance(1, 4) ? "" : name(x); c.pw = x.str("pq0", 3); }
    if (x.chance(1, 10)) c.user = casing(x, c.user);
    if (x.chance(1, 20)) c.user += x.pick({" ", ":", ":p"});
    if (c.kind == 2) c.group = x.pick({"", "", "staff"});
    return c;
}
struct Sess {
    World &w; zk::Client c; std::string peer; bool over = false, authed = false; User u;
    Sess(World &w, const std::string &p) : w(w), c(*w.net, p), peer(p) {}
    std::string took() { std::lock_guard<std::mutex> lk(w.srv.m); std::string a = c.o.get_address(), r = w.last[a]; w.last[a] = ""; return r; }
    void init(Ctx &x, const Cred &cr, const V &vh) {
        zk::Mem o; Z_APDU *a = zk::init(o); zk::set_ref(o, a, "i1"); Z_InitRequest *r = a->u.initRequest; zk::set_vhosts(o, &r->otherInfo, vh); std::string user, pw, text = "none";
        if (cr.kind == 1) {
            std::string s = cr.user + (cr.pw.empty() ? "" : "/" + cr.pw); r->idAuthentication = zk::auth_open(o, s); text = "open:" + s;
            size_t k = s.find('/'); user = s.substr(0, k); pw = k == std::string::npos ? "" : s.substr(k + 1);
        } else if (cr.kind == 2) { r->idAuthentication = zk::auth_idpass(o, cr.user, cr.group, cr.pw); user = cr.user; pw = cr.pw; text = zk::auth_text(r->idAuthentication); }
        bool ok = true; int code = 0; V t = vh;
        if (w.reg) { auto it = w.users.find(user); if (user.empty() || it == w.users.end() || it->second.pw != pw) { ok = false; code = YAZ_BIB1_INIT_AC_AUTHENTICATION_SYSTEM_ERROR; } else { u = it->second; authed = true; } }
        if (ok && w.treg) {
            auto it = w.targets.find(user); V granted; if (it != w.targets.end()) granted = it->second; V keep; for (auto &v : vh) if (has(granted, v)) keep.push_back(v);
            if (keep.empty() || (keep.size() != vh.size() && !w.discard)) { ok = false; code = YAZ_BIB1_ACCESS_TO_SPECIFIED_DATABASE_DENIED; }
            t = keep;
        }
        Z_InitResponse *ir = zk::init_of(c.send(a)); x.check(ir, "init answered with " + zk::print(c.last.get())); x.eq(zk::get_ref(c.last.get()->u.z3950), std::string("i1"), "reference id");
        std::string got = took();
        x.eq((bool) *ir->result, ok, "result of init for user '" + user + "'"); x.eq(c.closed, !ok, "session closed");
        if (ok) x.eq(got, "init " + Server::join(t) + " " + text, "init as passed on");
        else {
            x.eq(got, std::string(""), "a rejected init reached the server"); over = true;
            Z_External *e = ir->userInformationField; x.check(e && e->which == Z_External_userInfo1, "no diagnostic in the rejection"); Z_OtherInformation *oi = e->u.userInfo1; x.check(oi->num_elements > 0 && oi->list[0]->which == Z_OtherInfo_externallyDefinedInfo, "no diagnostic");
            Z_External *de = oi->list[0]->information.externallyDefinedInfo; x.check(de->which == Z_External_diag1 && de->u.diag1->num > 0, "no diagnostic"); Z_DiagnosticFormat_s *df = de->u.diag1->elements[0]; x.check(df->which == Z_DiagnosticFormat_s_defaultDiagRec, "no diagnostic"); x.eq((int) *df->u.defaultDiagRec->condition, code, "diagnostic of the rejection");
        }
    }
    void request(Ctx &x, int kind, const V &dbs) {        // 0 search 1 scan 2 present 3 delete
        zk::Mem o; Z_APDU *a; zk::Search s; s.dbs = dbs; s.ref = "r"; zk::Scan sc; sc.dbs = dbs; sc.ref = "r"; zk::Present p; p.ref = "r"; p.num = 0;
        a = kind == 0 ? zk::search(o, s) : kind == 1 ? zk::scan(o, sc) : kind == 2 ? zk::present(o, p) : zk::reply(o, Z_APDU_deleteResultSetRequest, zk::close(o)); if (kind == 3) { *a->u.deleteResultSetRequest->deleteFunction = Z_DeleteResultSetRequest_all; zk::set_ref(o, a, "r"); }
        std::string bad; if (w.reg && kind < 2) for (auto &d : dbs) if (bad.empty() && !has(u.dbs, d)) bad = d;
        bool no_db = w.reg && kind < 2 && !bad.empty();
        Z_GDU *g = c.send(a); x.check(g && g->which == Z_GDU_Z3950 && g->u.z3950->which == zk::response_type(a->which), "answered with " + zk::print(g)); x.eq(zk::get_ref(g->u.z3950), std::string("r"), "reference id"); std::string got = took();
        x.eq(got, std::string(no_db ? "" : zk::name(a->which)), "what reached the server"); x.eq(c.closed, no_db, "session closed");
        if (kind == 0) { zk::Recs r = zk::recs(zk::search_of(g)->records); x.eq(r.diag, no_db ? std::to_string(YAZ_BIB1_ACCESS_TO_SPECIFIED_DATABASE_DENIED) + ":" + bad : "", "diagnostic of search"); }
        if (kind == 1) { Z_ListEntries *e = zk::scan_of(g)->entries; std::string d = e && e->num_nonsurrogateDiagnostics ? zk::diag_text(e->nonsurrogateDiagnostics[0]->u.defaultFormat) : ""; x.eq(d, no_db ? std::to_string(YAZ_BIB1_ACCESS_TO_SPECIFIED_DATABASE_DENIED) + ":" + bad : "", "diagnostic of scan"); }
        if (no_db) over = true;
    }
};
static std::string show(const Cred &c) { return c.kind == 0 ? "none" : (c.kind == 1 ? "open " : "id ") + q(c.user) + "/" + q(c.pw); }
static V gen_dbs(Ctx &x, const User &u) { V d; for (int n = x.weighted({8, 4, 1}) + 1; n > 0; n--) d.push_back(casing(x, !u.dbs.empty() && x.chance(3, 4) ? x.pick(u.dbs) : x.pick(DBS))); for (auto &s : d) if (s.empty()) s = "a"; return d; }
static V gen_targets(Ctx &x, World &w, const std::string &user) { V v; auto it = w.targets.find(user); for (int n = x.weighted({1, 6, 4, 2}); n > 0; n--) { std::string t = it != w.targets.end() && x.chance(2, 3) ? x.pick(it->second) : x.pick(TG); if (t != "" && t != "*") v.push_back(casing(x, t)); } return v; }
static void histories(Ctx &x)
{
    World w; std::string f1, f2; setup(x, w, f1, f2, false); start(w, f1, f2);
    for (auto &u : w.users) x.desc << u.first << ":" << u.second.pw << ":" << comma(u.second.dbs).substr(0, 60) << "; ";
    for (auto &u : w.targets) x.desc << u.first << " -> " << comma(u.second).substr(0, 60) << "; ";
    if (w.discard) x.desc << "discard; ";
    int nc = x.range(1, 4); std::vector<std::unique_ptr<Sess> > cl; int ok = 0, no = 0;
    for (int i = 0; i < nc; i++) { cl.emplace_back(new Sess(w, "10.0.0." + std::to_string(i + 1))); Cred c = gen_cred(x, w); V t = gen_targets(x, w, c.user); x.desc << "init " << show(c) << " for " << Server::join(t) << "; "; cl.back()->init(x, c, t); if (cl.back()->over) no++; else ok++; }
    for (int n = x.range(0, 8); n > 0; n--) { Sess &s = *cl[x.range(0, nc - 1)]; if (s.over) continue; int k = x.weighted({5, 3, 1, 1}); V d = gen_dbs(x, s.u); x.desc << s.peer.back() << ":" << k << " " << Server::join(d) << "; "; s.request(x, k, d); if (s.over) no++; else ok++; }
    x.nontrivial = ok && no;
    x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]);
    // other protocols are not held up
    if (x.chance(1, 6)) { zk::Client c(*w.net, "10.0.9.9"); zk::Mem o; bool got = false; zk::hooks().fn = [&](const zk::Hook *, zk::mp::Package &) { got = true; }; Z_GDU *g = z_get_HTTP_Request_uri(o, "http://h/", 0, 0); c.send(g); x.check(got, "HTTP request not passed on"); zk::hooks().fn = [&w](const zk::Hook *h, zk::mp::Package &p) { w.srv.process(h->label, p); }; }
}
// registers with errors, or none, are refused
static void registers(Ctx &x)
{
    World w; std::string f1, f2, more; bool ok = setup(x, w, f1, f2, true); int k = x.range(0, 5);
    if (k == 1) { w.reg = w.treg = false; ok = false; } else if (k == 2) { more = "<other/>"; ok = false; } else if (k == 3) { if (w.reg) f1 += ".missing"; else f2 += ".missing"; ok = false; }
    x.desc << (ok ? "good" : "bad") << k; x.nontrivial = !ok; bool done = true; std::string what;
    try { zk::Net n({&metaproxy_1_filter_auth_simple}, zk::route("start", config(w, f1, f2, more))); } catch (zk::mp::filter::FilterException &e) { done = false; what = e.what(); }
    x.eq(done, ok, "registers accepted (" + what + ")");
}
static void threads(Ctx &x)
{
    World w; std::string f1, f2; setup(x, w, f1, f2, false); start(w, f1, f2); int T = x.range(2, 4), per = x.range(1, 4);
    std::vector<std::vector<Cred> > cr(T); std::vector<std::vector<V> > tg(T); std::vector<std::vector<std::vector<V> > > db(T); std::vector<std::string> bad(T); std::vector<std::thread> th; std::atomic<int> go(0); x.nontrivial = true;
    for (int t = 0; t < T; t++) for (int i = 0; i < per; i++) { cr[t].push_back(gen_cred(x, w)); tg[t].push_back(gen_targets(x, w, cr[t].back().user)); auto it = w.users.find(cr[t].back().user); db[t].emplace_back(); for (int k = x.range(0, 4); k > 0; k--) db[t].back().push_back(gen_dbs(x, it == w.users.end() ? User() : it->second)); }
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
        try {
            std::vector<uint32_t> none; Src src(none); Ctx y(src); go++; while (go < T) {}
            for (int i = 0; i < per; i++) { Sess s(w, "10.1." + std::to_string(t) + "." + std::to_string(i)); s.init(y, cr[t][i], tg[t][i]); for (size_t k = 0; k < db[t][i].size() && !s.over; k++) s.request(y, (int) k & 1, db[t][i][k]); }
        } catch (Fail &f) { bad[t] = f.what(); }
    });
    for (auto &t : th) t.join();
    for (auto &b : bad) if (!b.empty()) x.fail(b);
    x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]);
}
int main(int argc, char **argv)
{
    zk::quiet();
    Check c; c.id = "C14";
    c.add("histories", 30000, 600000, "something was allowed and something refused", histories)
     .add("registers", 1500, 30000, "a register or configuration with an error", registers)
     .add("threads", 300, 6000, "all (concurrent clients)", threads, false);
    return run(c, argc, argv);
}
