// SOURCES: kit filter_multi
// VARIANTS: asan tsan
// Merged targets: a session over several targets behaves as one server holding all their records.
#include "../models/zkit.hpp"
#include <thread>
#include <atomic>
#include <algorithm>
ZK_FILTER(multi)
using namespace pbt;
using zk::Server;

struct Rule { std::string route, auth, pat; };
static bool glob(const char *p, const char *s)
{
    if (!*p) return !*s;
    if (*p == '*') { for (;; s++) { if (glob(p + 1, s)) return true; if (!*s) return false; } }
    return *s && (*p == '?' || *p == *s) && glob(p + 1, s + 1);
}
struct Target { std::string vhost, label, auth, ident; std::vector<std::string> dbs; int state = 0; };   // 0 usable, 1 gone
struct World {
    std::vector<Rule> rules; bool serve = false, hideun = false, hideerr = false; std::unique_ptr<zk::Net> net; Server srv;
    std::set<std::string> unnamed;        // labels without named sets
    std::map<std::string, std::string> fault; std::mutex fm;   // vhost -> what happens to the next matching request
    std::string xml(bool say) {
        std::string c = "<filter type=\"multi\">";
        for (auto &r : rules) c += "<target" + (r.route.empty() ? "" : " route=\"" + r.route + "\"") + (r.auth.empty() ? "" : " auth=\"" + r.auth + "\"") + ">" + zk::esc(r.pat) + "</target>";
        if (hideun) c += "<hideunavailable/>";
        if (hideerr) c += "<hideerrors/>";
        if (serve || say) c += serve ? "<mergetype>serveorder</mergetype>" : "<mergetype>roundrobin</mergetype>";
        c += "</filter>" + zk::hook("next");
        return zk::route("start", c) + zk::route("r1", zk::hook("r1")) + zk::route("r2", zk::hook("r2"));
    }
    Target target(const std::string &v) const {
        Target t; t.vhost = v; t.label = "next";
        for (auto &r : rules) if (glob(r.pat.c_str(), v.c_str())) { t.label = r.route.empty() ? "next" : r.route; t.auth = r.auth; break; }
        t.ident = t.label + "@" + v; size_t k = v.find('/');
        if (k != std::string::npos && k + 1 < v.size()) { std::string w; for (char c : v.substr(k + 1) + "+") if (c == '+') { t.dbs.push_back(w); w = ""; } else w += c; }
        return t;
    }
};
static long hits_of(const std::string &ident, const std::vector<std::string> &dbs, const std::string &q)
{
    uint64_t h = pbt::hash(ident + Server::join(dbs) + q); long m = (long) (h >> 8 & 7);
    return m == 0 ? 0 : m == 1 ? 60 + (long) (h % 50) : (long) (h % (m < 5 ? 6 : 20));
}
// the terms of a target; start term at or after which a list begins is given
static std::map<std::string, long> terms_of(const std::string &ident, const std::vector<std::string> &dbs)
{
    std::map<std::string, long> m; uint64_t h = pbt::hash(ident + Server::join(dbs)); int n = (int) (h % 25);
    for (int i = 0; i < n; i++) { h = h * 6364136223846793005ull + 1442695040888963407ull; std::string t(1, (char) ('a' + (h >> 33) % 26)); if (h >> 40 & 1) t += (char) ('a' + (h >> 45) % 5); m[t] = 1 + (long) ((h >> 50) % 9); }
    return m;
}
static std::string scan_term(Z_ScanRequest *r)
{
    Z_Term *t = r->termListAndStartPoint->term; return std::string((const char *) t->u.general->buf, t->u.general->len);
}
// what a list of terms gives for a request: entries, and the position of the start term
static std::vector<std::pair<std::string, long> > window(const std::map<std::string, long> &m, const std::string &term, int num, int pos, int &posret)
{
    std::vector<std::pair<std::string, long> > r; auto it = m.lower_bound(term); int b = 0;
    while (b < pos - 1 && it != m.begin()) { --it; b++; }
    posret = b + 1;
    for (int i = 0; i < num && it != m.end(); i++, ++it) r.push_back(*it);
    return r;
}
static Z_APDU *scan_reply(ODR o, const std::string &ident, Z_APDU *a)
{
    Z_ScanRequest *r = a->u.scanRequest; std::vector<std::string> dbs; for (int i = 0; i < r->num_databaseNames; i++) dbs.push_back(r->databaseNames[i]);
    int pos = r->preferredPositionInResponse ? (int) *r->preferredPositionInResponse : 1, posret;
    auto w = window(terms_of(ident, dbs), scan_term(r), (int) *r->numberOfTermsRequested, pos, posret);
    Z_APDU *ra = zk::scan_reply(o, a, 0, 0); Z_ScanResponse *rr = ra->u.scanResponse; int n = (int) w.size();
    rr->entries = (Z_ListEntries *) odr_malloc(o, sizeof(Z_ListEntries)); memset(rr->entries, 0, sizeof(Z_ListEntries)); rr->entries->num_entries = n;
    rr->entries->entries = (Z_Entry **) odr_malloc(o, sizeof(Z_Entry *) * (n + 1));
    for (int i = 0; i < n; i++) {
        Z_Entry *e = rr->entries->entries[i] = (Z_Entry *) odr_malloc(o, sizeof(Z_Entry)); e->which = Z_Entry_termInfo;
        Z_TermInfo *t = e->u.termInfo = (Z_TermInfo *) odr_malloc(o, sizeof(Z_TermInfo)); memset(t, 0, sizeof *t);
        t->term = (Z_Term *) odr_malloc(o, sizeof(Z_Term)); t->term->which = Z_Term_general; t->term->u.general = odr_create_Odr_oct(o, w[i].first.data(), (int) w[i].first.size());
        t->globalOccurrences = odr_intdup(o, w[i].second);
    }
    *rr->numberOfEntriesReturned = n; rr->positionOfTerm = odr_intdup(o, posret); *rr->scanStatus = Z_Scan_success;
    return ra;
}
struct Op { int kind = 0; zk::Search s; zk::Present p; zk::Scan sc; bool clse = false; std::map<int, std::string> fault; };   // fault by target number
static const char *SETS[] = {"default", "1", "s2"};
static Op gen_op(Ctx &x, int targets, bool faults, bool named)
{
    Op o; o.kind = x.weighted({8, 12, 4, 1}); std::string ref = x.chance(1, 2) ? x.str1("abcdef01", 6) : "";
    auto nm = [&] { return std::string(SETS[named ? x.range(0, 2) : 0]); };
    if (o.kind == 0) {
        o.s.set = nm(); o.s.query = x.pick({"a", "b", "@and a b", "@attr 1=4 c", "d", "e"}); o.s.ref = ref; o.s.dbs = {x.pick({"Default", "db1"})}; if (x.chance(1, 6)) o.s.dbs.push_back("db2");
        if (x.chance(1, 2)) { o.s.ssub = x.range(0, 40); o.s.lslb = o.s.ssub + x.range(1, 60); o.s.mspn = x.range(0, 8); }
        o.s.syn = x.pick({"", "xml", "usmarc", "sutrs"}); o.s.esn_s = x.pick({"", "B", "F"}); o.s.esn_m = x.pick({"", "B", "F"});
    } else if (o.kind == 1) {
        o.p.set = nm(); int k = x.weighted({6, 4, 2, 1}); o.p.start = k == 0 ? x.range(1, 12) : k == 1 ? x.range(1, 45) : k == 2 ? x.range(40, 200) : x.range(-2, 0); o.p.num = x.chance(1, 8) ? x.range(9, 60) : x.range(0, 9);
        if (x.chance(1, 60)) o.p.num = -1; else if (x.chance(1, 60)) o.p.num = 2147483647;
        o.p.syn = x.pick({"", "xml", "usmarc"}); o.p.esn = x.pick({"", "B", "F"}); o.p.ref = ref;
    } else if (o.kind == 2) {
        o.sc.dbs = {x.pick({"Default", "db1"})}; o.sc.num = x.range(1, 12); o.sc.pos = x.range(1, o.sc.num + 1); o.sc.ref = ref; o.sc.term = x.str1("abcdefgmtz", 2);
        if (x.chance(1, 6)) o.sc.pos = -1;
    } else o.clse = x.coin();
    if (faults && x.chance(1, 4)) for (int n = x.weighted({6, 3, 1}) + 1; n > 0; n--) { std::string &f = o.fault[x.range(0, targets - 1)]; f = x.pick({"diag:31", "any", "diag:31", "drop", "pdiag:33", "pany", "pdrop"}); if (f == "any") f = zk::any_diag(x); if (f == "pany") f = "p" + zk::any_diag(x); }
    return o;
}
static std::string show(const Op &o)
{
    std::ostringstream s;
    if (o.kind == 0) s << "search(" << o.s.set << ", " << o.s.query << ", [" << Server::join(o.s.dbs) << "], " << o.s.ssub << "/" << o.s.lslb << "/" << o.s.mspn << ", " << o.s.syn << "," << o.s.esn_s << "," << o.s.esn_m << ")";
    else if (o.kind == 1) s << "present(" << o.p.set << ", " << o.p.start << "+" << o.p.num << ", " << o.p.syn << "," << o.p.esn << ")";
    else if (o.kind == 2) s << "scan([" << Server::join(o.sc.dbs) << "], " << o.sc.term << " " << o.sc.num << "@" << o.sc.pos << ")";
    else s << (o.clse ? "close" : "other");
    for (auto &f : o.fault) s << "!" << f.first << ":" << f.second;
    return s.str();
}
struct Sess {
    World &w; zk::Client c; std::string peer; std::vector<Target> t; bool over = false, named = true;
    struct St { bool maybe = false; std::string query; std::vector<int> tg; std::vector<long> n; std::vector<std::vector<std::string> > dbs; };
    std::map<std::string, St> sets;
    Sess(World &w, const std::string &peer) : w(w), c(*w.net, peer), peer(peer) {}
    std::string addr() { return c.o.get_address(); }
    void after(Ctx &x) { over = true; x.check(c.closed || c.gone, "session not closed"); if (!c.gone) c.hangup(); std::lock_guard<std::mutex> lk(w.srv.m); x.eq(w.srv.open_sessions(addr()), 0, "target sessions left open by a closed session"); }
    void finish(Ctx &x) { if (!over) { c.hangup(); after(x); } }
    void arm(const std::map<int, std::string> &f) { std::lock_guard<std::mutex> lk(w.fm); for (auto &e : f) if (e.first < (int) t.size()) w.fault[addr() + t[e.first].vhost] = e.second; }
    void disarm() { std::lock_guard<std::mutex> lk(w.fm); for (auto &e : t) w.fault.erase(addr() + e.vhost); }
    void init(Ctx &x, const std::vector<std::string> &vh, const std::map<int, std::string> &f, const std::string &au) {
        zk::Mem o; Z_APDU *a = zk::init(o, {Z_Options_search, Z_Options_present, Z_Options_scan, Z_Options_namedResultSets}, "ir"); Z_InitRequest *r = a->u.initRequest;
        zk::set_vhosts(o, &r->otherInfo, vh); for (auto &v : vh) t.push_back(w.target(v));
        if (!au.empty()) r->idAuthentication = zk::auth_idpass(o, au, "", "pw");
        yaz_oi_set_string_oid(&r->otherInfo, o, yaz_oid_userinfo_client_ip, 1, peer.c_str());
        *r->preferredMessageSize = 70000; *r->maximumRecordSize = 80000;
        arm(f); Z_InitResponse *ir = zk::init_of(c.send(a)); disarm(); x.check(ir, "init was answered with " + zk::print(c.last.get()));
        x.eq(zk::get_ref(c.last.get()->u.z3950), std::string("ir"), "reference id of the init response");
        int good = 0, bad = 0; bool closed_all = true, diag = false; std::vector<Target> rest;
        for (size_t i = 0; i < t.size(); i++) {
            auto it = f.find((int) i); std::string k = it == f.end() ? "" : it->second;
            if (k == "closeinit") { bad++; continue; }
            if (k == "diag:1011") { bad++; diag = true; t[i].state = 1; } else good++;
            rest.push_back(t[i]);
        }
        (void) closed_all; t = rest; bool ok = w.hideun ? good > 0 : bad == 0;
        x.eq((bool) *ir->result, ok, "result of init with " + std::to_string(good) + " targets reached and " + std::to_string(bad) + " not");
        x.eq(c.closed, !ok, "session closed by init");
        named = true;
        if (ok) {
            for (auto &e : t) if (w.unnamed.count(e.label)) named = false;
            x.eq((bool) ODR_MASK_GET(ir->options, Z_Options_namedResultSets), named, "named result sets offered");
            for (int k : {Z_Options_search, Z_Options_present, Z_Options_scan}) x.check(ODR_MASK_GET(ir->options, k), "option missing from the init response");
            Z_InitResponse *sv = zget_APDU(o, Z_APDU_initResponse)->u.initResponse;      // the servers' sizes, smaller than the client's
            x.eq((long) *ir->preferredMessageSize, (long) *sv->preferredMessageSize, "preferred message size"); x.eq((long) *ir->maximumRecordSize, (long) *sv->maximumRecordSize, "maximum record size");
        } else { if (diag) x.check(ir->userInformationField, "no reason given for the refused init"); after(x); }
    }
    // what each target did with the last request
    enum Out { OK, DIAG, GONE };
    Out outcome(int i, const Op &op, bool present, std::string &diag) {
        if (t[i].state) return GONE;
        auto it = op.fault.find(i); std::string f = it == op.fault.end() ? "" : it->second;
        if (present != (op.kind == 1) ) { if (f.empty() || f[0] != 'p') return OK; f = f.substr(1); }   // piggyback present
        else if (!f.empty() && f[0] == 'p') { if (op.kind == 0) return OK; f = f.substr(1); }
        if (f == "drop") { t[i].state = 1; return GONE; }
        if (f.compare(0, 5, "diag:") == 0) { diag = f.substr(5); return DIAG; }
        return OK;
    }
    bool closed(Ctx &x, Z_GDU *g, const char *what) { x.check(zk::is_close(g), std::string("the close of a target was not passed on by ") + what + ": " + zk::print(g)); x.check(c.closed, std::string("a target went away but the session is open after ") + what); after(x); return false; }
    static std::string merged(const std::vector<std::string> &d) { if (d.size() == 1) return d[0]; std::string r = "multi"; for (auto &s : d) r += " " + s; return r; }
    // the merged list: (target index in set, position there)
    std::vector<std::pair<int, long> > order(const St &st) {
        std::vector<std::pair<int, long> > r;
        if (w.serve) { for (size_t i = 0; i < st.n.size(); i++) for (long k = 1; k <= st.n[i]; k++) r.push_back({(int) i, k}); return r; }
        for (long k = 1; ; k++) { bool any = false; for (size_t i = 0; i < st.n.size(); i++) if (k <= st.n[i]) { r.push_back({(int) i, k}); any = true; } if (!any) return r; }
    }
    // checks the outcome of presenting; returns false once the session is over.  none: no records and no diagnostic is fine too
    bool presented(Ctx &x, const Op &op, Z_GDU *g, Z_Records *rec, long returned, long next, const St &st, long start, long num, const std::string &syn, const std::string &esn) {
        auto ord = order(st); std::vector<std::string> diags; int good = 0, gone = 0; std::map<int, bool> use, ok;
        for (long i = start - 1; i < start - 1 + num; i++) use[ord[i].first] = true;
        for (auto &u : use) {
            std::string d; Out out = outcome(st.tg[u.first], op, true, d); ok[u.first] = out == OK;
            if (out == OK) good++; else if (out == DIAG) diags.push_back(d + ":present"); else gone++;
        }
        if (gone && (!good || !w.hideerr)) return closed(x, g, "present");
        x.check(!c.closed, "session closed by present");
        zk::Recs rr = zk::recs(rec);
        if (!diags.empty() && (!good || !w.hideerr)) { x.eq(rr.diag, merged(diags), "diagnostics of present"); return true; }
        x.eq(rr.diag, std::string(""), "diagnostic of present");
        size_t k = 0; zk::Mem o; std::string sy = zk::oid_text(zk::syntax(o, syn.empty() ? "xml" : syn));
        for (long i = start - 1; i < start - 1 + num; i++) {
            int b = ord[i].first; if (!ok[b]) continue;
            const Target &tg = t[st.tg[b]]; x.check(k < rr.body.size(), "record " + std::to_string(i + 1) + " missing");
            x.eq(rr.body[k], Server::body(tg.ident, st.dbs[b], st.query, ord[i].second, sy, esn.empty() ? "-" : esn), "record " + std::to_string(i + 1));
            x.eq(rr.db[k], tg.vhost, "database name of record " + std::to_string(i + 1)); k++;
        }
        x.eq(rr.body.size(), k, "number of records"); x.eq(returned, (long) k, "number of records returned");
        if (!gone && diags.empty()) { long total = (long) ord.size(), after = start + num; x.check(next == after || (after > total && next == 0), "next result set position " + std::to_string(next) + " after " + std::to_string(start) + "+" + std::to_string(num) + " of " + std::to_string(total)); }
        return true;
    }
    bool step(Ctx &x, const Op &op) {
        zk::Mem o; arm(op.fault); Z_GDU *g; struct Dis { Sess *s; ~Dis() { s->disarm(); } } dis{this};
        if (op.kind == 0) {
            g = c.send(zk::search(o, op.s)); St st; st.query = zk::query_text(zk::pqf(o, op.s.query)); std::vector<std::string> diags; int good = 0, gone = 0; long total = 0;
            for (size_t i = 0; i < t.size(); i++) {
                std::string d; Op tmp = op; Out out;
                { if (t[i].state) out = GONE; else { auto it = op.fault.find((int) i); std::string f = it == op.fault.end() ? "" : it->second; if (f == "drop") { out = GONE; t[i].state = 1; } else if (f.compare(0, 5, "diag:") == 0) { out = DIAG; d = f.substr(5); } else out = OK; } }
                if (out == GONE) { gone++; continue; }
                auto dbs = t[i].dbs.empty() ? op.s.dbs : t[i].dbs;
                if (out == DIAG) { diags.push_back(d + ":search"); st.tg.push_back((int) i); st.n.push_back(0); st.dbs.push_back(dbs); continue; }
                good++; st.tg.push_back((int) i); st.dbs.push_back(dbs); st.n.push_back(hits_of(t[i].ident, dbs, st.query)); total += st.n.back();
            }
            if (gone && (!good || !w.hideun)) return closed(x, g, "search");
            Z_SearchResponse *r = zk::search_of(g);
            if (!diags.empty() && (!good || !w.hideerr)) {
                x.check(!c.closed, "session closed by search"); x.check(r, "search answered with " + zk::print(g)); x.eq(zk::get_ref(g->u.z3950), op.s.ref, "reference id");
                x.eq(zk::recs(r->records).diag, merged(diags), "diagnostics of search"); x.eq((long) *r->resultCount, total, "result count"); sets[op.s.set].maybe = true; return true;
            }
            sets[op.s.set] = st;
            Z_APDU *q = zk::search(o, op.s); std::string esn; long n = zk::piggyback_count(q->u.searchRequest, total, esn); if (n > total) n = total;
            bool shown = r && r->records; if (!diags.empty() && !shown) n = 0;
            if (n == 0) { x.check(r, "search answered with " + zk::print(g)); x.check(!c.closed, "session closed by search"); x.check(!shown, "records nobody asked for"); }
            else if (!presented(x, op, g, r ? r->records : 0, r ? (long) *r->numberOfRecordsReturned : -1, r ? (long) *r->nextResultSetPosition : -1, st, 1, n, op.s.syn, esn == "-" ? "" : esn)) return false;
            if (!r) return true;
            x.eq(zk::get_ref(g->u.z3950), op.s.ref, "reference id"); x.eq((long) *r->resultCount, total, "result count");
        } else if (op.kind == 1) {
            auto it = sets.find(op.p.set); bool maybe = it != sets.end() && it->second.maybe; if (maybe) disarm();
            g = c.send(zk::present(o, op.p)); if (maybe) { if (c.closed) { after(x); return false; } return true; }      // left open what a failed search leaves
            Z_PresentResponse *r = zk::present_of(g); std::string diag = r ? zk::recs(r->records).diag : "?";
            if (it == sets.end()) { x.eq(diag, "30:" + op.p.set, "present of an unknown set"); x.eq(zk::get_ref(g->u.z3950), op.p.ref, "reference id"); return true; }
            long total = 0; for (long k : it->second.n) total += k;
            if (op.p.num < 0 || (op.p.num > 0 && (op.p.start < 1 || (long) op.p.start + op.p.num - 1 > total))) { x.eq(diag, std::string("13"), "present out of range (" + std::to_string(total) + " records)"); x.eq(zk::get_ref(g->u.z3950), op.p.ref, "reference id"); x.check(!c.closed, "session closed"); return true; }
            if (op.p.num == 0) { x.check(!c.closed, "session closed"); return true; }
            if (!presented(x, op, g, r ? r->records : 0, r ? (long) *r->numberOfRecordsReturned : -1, r ? (long) *r->nextResultSetPosition : -1, it->second, op.p.start, op.p.num, op.p.syn, op.p.esn)) return false;
            if (r) x.eq(zk::get_ref(g->u.z3950), op.p.ref, "reference id");
        } else if (op.kind == 2) {
            g = c.send(zk::scan(o, op.sc)); bool gone = false; std::vector<std::string> diags; std::map<std::string, long> all;
            for (size_t i = 0; i < t.size(); i++) {
                std::string d; auto it = op.fault.find((int) i); std::string f = it == op.fault.end() ? "" : it->second;
                if (t[i].state || f == "drop") { gone = true; t[i].state = 1; continue; }
                if (f.compare(0, 5, "diag:") == 0) { diags.push_back(f.substr(5) + ":scan"); continue; }
                for (auto &e : terms_of(t[i].ident, t[i].dbs.empty() ? op.sc.dbs : t[i].dbs)) all[e.first] += e.second;
            }
            if (c.closed || zk::is_close(g)) { x.check(gone, "session closed by scan"); if (c.closed) after(x); return !c.closed; }
            Z_ScanResponse *r = zk::scan_of(g); x.check(r, "scan answered with " + zk::print(g)); x.eq(zk::get_ref(g->u.z3950), op.sc.ref, "reference id");
            std::string diag; if (r->entries && r->entries->num_nonsurrogateDiagnostics) diag = zk::diag_text(r->entries->nonsurrogateDiagnostics[0]->u.defaultFormat);
            if (gone) { x.check(w.hideun || diags.size(), "a target went away but scan gave an answer"); return true; }
            if (!diags.empty()) { x.eq(diag, diags[0], "diagnostic of scan"); return true; }
            x.eq(diag, std::string(""), "diagnostic of scan");
            int pr, pos = op.sc.pos < 0 ? 1 : op.sc.pos; auto want = window(all, op.sc.term, op.sc.num, pos, pr);
            x.eq((long) (r->positionOfTerm ? *r->positionOfTerm : 1), (long) pr, "position of the start term");
            std::string gs, ws; for (auto &e : want) ws += e.first + "=" + std::to_string(e.second) + " ";
            for (int i = 0; i < r->entries->num_entries; i++) { Z_TermInfo *ti = r->entries->entries[i]->u.termInfo; gs += std::string((const char *) ti->term->u.general->buf, ti->term->u.general->len) + "=" + std::to_string(ti->globalOccurrences ? (long) *ti->globalOccurrences : -1) + " "; }
            x.eq(gs, ws, "scan terms and counts"); x.eq((long) *r->numberOfEntriesReturned, (long) want.size(), "number of entries");
        } else if (op.clse) {
            g = c.send(zk::close(o)); x.check(zk::is_close(g), "close answered with " + zk::print(g)); after(x); return false;
        } else {
            g = c.send(op.fault.empty() ? zk::init(o) : zk::reply(o, Z_APDU_deleteResultSetRequest, zk::close(o)));
            x.check(zk::is_close(g) && *g->u.z3950->u.close->closeReason == Z_Close_protocolError, "a request out of place must be answered with close/protocol error, got " + zk::print(g)); after(x); return false;
        }
        return true;
    }
};
static const std::vector<std::string> VH = {"h1", "h2:210/y+z", "h3/Base", "h4", "h5/a", "h6:9999", "g1/x", "g2"};
static void setup(Ctx &x, World &w)
{
    static const std::vector<std::string> pats = {"h1", "h*", "*", "?3*", "g2", "*/*", "h5/a", "h6:*"};
    for (int n = x.range(0, 3); n > 0; n--) w.rules.push_back(Rule{x.pick({"r1", "r2", "r1", ""}), x.pick({"", "", "me/pw"}), x.pick(pats)});
    w.serve = x.coin(); w.hideun = x.chance(1, 2); w.hideerr = x.chance(1, 2);
    if (x.chance(1, 4)) w.unnamed.insert(x.pick({"next", "r1", "r2"}));
    w.srv.hits = hits_of; w.srv.scan_fn = scan_reply;
    w.net.reset(new zk::Net({&metaproxy_1_filter_multi}, w.xml(x.coin())));
    for (auto &r : w.rules) x.desc << "[" << r.pat << " -> " << r.route << (r.auth.empty() ? "" : " auth") << "] ";
    x.desc << (w.serve ? "serveorder " : "roundrobin ") << (w.hideun ? "hideunavailable " : "") << (w.hideerr ? "hideerrors " : "");
    w.srv.fault = [&w](const std::string &label, Server::Ses &s, Z_APDU *a) -> std::string {
        std::string key = s.peer; 
        { std::vector<std::string> v = s.vhosts; if (a->which == Z_APDU_initRequest) v = zk::vhosts_of(a->u.initRequest->otherInfo); key += Server::join(v); }
        w.srv.named = !w.unnamed.count(label);
        std::lock_guard<std::mutex> lk(w.fm); auto it = w.fault.find(key); if (it == w.fault.end()) return "";
        std::string f = it->second; bool in = a->which == Z_APDU_initRequest;
        if (in) return f == "diag:1011" || f == "closeinit" ? f : "";
        if (f[0] == 'p') return a->which == Z_APDU_presentRequest ? f.substr(1) : "";
        return f;
    };
    zk::hooks().fn = [&w](const zk::Hook *h, zk::mp::Package &p) {
        Z_GDU *g = p.request().get();      // a target that refused the init hangs up at the next request
        if (!p.session().is_closed() && g && g->which == Z_GDU_Z3950 && g->u.z3950->which != Z_APDU_initRequest) {
            std::lock_guard<std::mutex> lk(w.srv.m); auto it = w.srv.ses.find(p.session().id());
            if (it != w.srv.ses.end() && !it->second.inited && it->second.requests) { zk::Mem o; p.session().close(); it->second.closed = true; p.response() = zk::close_reply(o, g->u.z3950, Z_Close_protocolError, "no init"); return; }
        }
        w.srv.process(h->label, p);
    };
}
static std::vector<std::string> pick_targets(Ctx &x)
{
    std::vector<std::string> p = VH, v; int n = x.weighted({1, 5, 5, 3, 1}) + 1;
    for (int i = 0; i < n; i++) { int k = x.range(0, (int) p.size() - 1); v.push_back(p[k]); p.erase(p.begin() + k); }
    return v;
}
static void histories(Ctx &x)
{
    World w; setup(x, w); std::string badinit, who, auth;
    int nc = x.weighted({8, 2}) + 1; std::vector<std::unique_ptr<Sess> > cl;
    w.srv.seen = [&](const std::string &, zk::mp::Package &p, Z_APDU *a) {
        if (a->which != Z_APDU_initRequest) return;
        Z_InitRequest *r = a->u.initRequest; auto v = zk::vhosts_of(r->otherInfo); const char *ip = yaz_oi_get_string_oid(&r->otherInfo, yaz_oid_userinfo_client_ip, 1, 0);
        if (v.size() != 1) { badinit = "targets in one init"; return; }
        Target t = w.target(v[0]); std::string want = t.auth.empty() ? (auth.empty() ? "none" : "idpass:" + auth + "//pw") : "open:" + t.auth;
        if (zk::auth_text(r->idAuthentication) != want) badinit = "credentials for " + v[0] + ": " + zk::auth_text(r->idAuthentication) + " expected " + want;
        if (std::string(ip ? ip : "") != who) badinit = "client address";
        if (*r->preferredMessageSize != 70000 || *r->maximumRecordSize != 80000) badinit = "message sizes";
    };
    int shown = 0;
    for (int i = 0; i < nc; i++) {
        cl.emplace_back(new Sess(w, "10.0.0." + std::to_string(i + 1))); auto v = pick_targets(x); std::map<int, std::string> f; who = cl.back()->peer; auth = x.pick({"", "joe", "ann"});
        if (x.chance(1, 5)) for (int k = x.range(1, 2); k > 0; k--) f[x.range(0, (int) v.size() - 1)] = x.pick({"diag:1011", "closeinit"});
        x.desc << "init " << Server::join(v); for (auto &e : f) x.desc << "!" << e.first << ":" << e.second; x.desc << "; ";
        cl.back()->init(x, v, f, auth); x.check(badinit.empty(), "init sent to a target: " + badinit);
    }
    int n = x.range(1, 20);
    for (int i = 0; i < n; i++) {
        Sess &s = *cl[nc == 1 ? 0 : x.range(0, nc - 1)]; if (s.over) continue;
        Op op = gen_op(x, (int) s.t.size(), true, s.named); if (op.kind == 3 && !x.chance(1, 3)) continue;
        x.desc << s.peer.back() << ":" << show(op) << " "; x.label(op.kind == 0 ? "search" : op.kind == 1 ? "present" : op.kind == 2 ? "scan" : "other"); if (!op.fault.empty()) x.label("fault");
        if (op.kind == 1 && s.t.size() > 1 && s.sets.count(op.p.set)) shown++;
        s.step(x, op); x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]);
    }
    x.nontrivial = shown > 0;
    for (auto &s : cl) s->finish(x);
    x.eq(w.srv.open_sessions(), 0, "target sessions left open"); x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]);
    zk::hooks().fn = nullptr;
}
// windows into merged lists of given sizes, wherever they begin
static void windows(Ctx &x)
{
    World w; w.serve = x.chance(1, 4); std::vector<long> n; int k = x.range(1, 5); int big = x.pick({6, 6, 20, 60});
    for (int i = 0; i < k; i++) n.push_back(x.chance(1, 6) ? 0 : i && x.chance(1, 4) ? n[0] : x.range(0, big));
    w.srv.hits = [&](const std::string &id, const std::vector<std::string> &, const std::string &) { return n[id.back() - '0']; };
    w.net.reset(new zk::Net({&metaproxy_1_filter_multi}, w.xml(false)));
    zk::hooks().fn = [&w](const zk::Hook *h, zk::mp::Package &p) { w.srv.process(h->label, p); };
    Sess s(w, "10.0.3.1"); std::vector<std::string> v; for (int i = 0; i < k; i++) v.push_back("t" + std::to_string(i)); s.init(x, v, {}, "");
    Op o; o.kind = 0; zk::Mem m; Z_SearchResponse *r = zk::search_of(s.c.send(zk::search(m, o.s))); x.check(r, "search not answered");
    Sess::St st; st.query = zk::query_text(zk::pqf(m, "x")); long total = 0; for (int i = 0; i < k; i++) { st.tg.push_back(i); st.n.push_back(n[i]); st.dbs.push_back({"Default"}); total += n[i]; } s.sets["default"] = st;
    x.eq((long) *r->resultCount, total, "result count"); x.desc << (w.serve ? "serveorder" : "roundrobin"); for (long c : n) x.desc << " " << c;
    for (int i = x.range(1, 4); i > 0; i--) {
        Op p; p.kind = 1; p.p.start = total > 0 ? x.range(1, (int) total) : 1; p.p.num = total > 0 ? x.range(1, (int) std::min(12L, total - p.p.start + 1)) : 1; if (x.chance(1, 12)) p.p.num = (int) (total - p.p.start + 2);
        x.desc << " " << p.p.start << "+" << p.p.num; s.step(x, p); if (p.p.start > 1 && k > 1) x.nontrivial = true;
    }
    // a target that returns fewer records than asked: what is returned is still a prefix of the window
    if (total > 0 && x.chance(1, 2)) {
        int c = x.range(1, 3); w.srv.cap = [c](int want) { return want < c ? want : c; };
        zk::Present p; p.start = x.range(1, (int) total); p.num = x.range(1, (int) std::min(20L, total - p.start + 1)); auto ord = s.order(st); x.desc << " at most " << c << " each: " << p.start << "+" << p.num;
        Z_PresentResponse *pr = zk::present_of(s.c.send(zk::present(m, p))); x.check(pr, "present not answered"); zk::Recs rr = zk::recs(pr->records); x.check(rr.diag.empty() && rr.body.size() > 0 && (int) rr.body.size() <= p.num, "no records returned");
        for (size_t i = 0; i < rr.body.size(); i++) { auto e = ord[p.start - 1 + i]; x.eq(rr.body[i], Server::body(s.t[e.first].ident, {"Default"}, st.query, e.second, zk::oid_text(zk::syntax(m, "xml")), "-"), "record returned at position " + std::to_string(p.start + i)); }
        x.eq((size_t) *pr->numberOfRecordsReturned, rr.body.size(), "number of records returned");
    }
    s.finish(x); x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]); zk::hooks().fn = nullptr;
}
// requests with unusual numbers end in some answer
static void unusual(Ctx &x)
{
    World w; setup(x, w); w.unnamed.clear(); Sess s(w, "10.0.4.1"); s.init(x, pick_targets(x), {}, ""); x.nontrivial = true;
    // servers answering with odd diagnostics
    int style = x.range(0, 3); auto base = zk::hooks().fn;
    zk::hooks().fn = [&, base](const zk::Hook *h, zk::mp::Package &p) {
        Z_GDU *g = p.request().get(); zk::Mem o;
        if (style && !p.session().is_closed() && g && g->which == Z_GDU_Z3950 && (g->u.z3950->which == Z_APDU_searchRequest || g->u.z3950->which == Z_APDU_presentRequest)) {
            bool se = g->u.z3950->which == Z_APDU_searchRequest; Z_APDU *a = zk::reply(o, se ? Z_APDU_searchResponse : Z_APDU_presentResponse, g->u.z3950);
            Z_Records *r = (Z_Records *) odr_malloc(o, sizeof *r); Z_DiagRecs *d = (Z_DiagRecs *) odr_malloc(o, sizeof *d); r->which = Z_Records_multipleNSD; r->u.multipleNonSurDiagnostics = d;
            d->num_diagRecs = style - 1; d->diagRecs = (Z_DiagRec **) odr_malloc(o, 4 * sizeof(void *));
            for (int i = 0; i < style - 1; i++) { d->diagRecs[i] = zget_DiagRec(o, 31, "odd"); if (i == 0) { d->diagRecs[i]->which = Z_DiagRec_externallyDefined; d->diagRecs[i]->u.externallyDefined = z_ext_record_oid(o, yaz_oid_recsyn_sutrs, "odd", 3); } }
            if (se) { *a->u.searchResponse->searchStatus = 0; a->u.searchResponse->records = r; } else { *a->u.presentResponse->presentStatus = Z_PresentStatus_failure; a->u.presentResponse->records = r; }
            p.response() = a; return;
        }
        base(h, p);
    };
    static const std::vector<int> odd = {0, -1, 1, 2, 5, 100, 2147483647, -2147483647 - 1, 1000000};
    for (int i = x.range(1, 4); i > 0; i--) {
        zk::Mem o; Z_APDU *a; int k = x.range(0, 2);
        if (k == 0) { zk::Search q; q.ssub = x.pick(odd); q.lslb = x.pick(odd); q.mspn = x.pick(odd); a = zk::search(o, q); x.desc << "search " << q.ssub << "/" << q.lslb << "/" << q.mspn << " "; }
        else if (k == 1) { zk::Present q; q.start = x.pick(odd); q.num = x.pick(odd); a = zk::present(o, q); x.desc << "present " << q.start << "+" << q.num << " "; }
        else { zk::Scan q; q.num = x.pick(odd); q.pos = x.pick({-1, 0, 1, 2, 7, 100, 2147483647}); q.step = x.pick({-1, 0, 3}); a = zk::scan(o, q); *a->u.scanRequest->numberOfTermsRequested = q.num; if (a->u.scanRequest->preferredPositionInResponse && x.chance(1, 8)) *a->u.scanRequest->preferredPositionInResponse = -5; x.desc << "scan " << q.num << "@" << q.pos << " "; }
        Z_GDU *g = s.c.send(a); x.check(g && g->which == Z_GDU_Z3950, "no answer"); if (s.c.closed) break;
        x.eq(zk::name(g->u.z3950->which), zk::name(zk::response_type(a->which)), "kind of answer");
    }
    zk::hooks().fn = base; s.finish(x); zk::hooks().fn = nullptr;
}
static void threads(Ctx &x)
{
    World w; setup(x, w); w.unnamed.clear();
    int T = x.range(2, 4); std::vector<std::vector<Op> > ops(T); std::vector<std::unique_ptr<Sess> > cl; std::vector<std::string> bad(T); std::vector<std::vector<std::string> > v(T);
    for (int t = 0; t < T; t++) { v[t] = pick_targets(x); for (int n = x.range(1, 10); n > 0; n--) { ops[t].push_back(gen_op(x, (int) v[t].size(), x.chance(1, 3), true)); if (ops[t].back().kind == 3) ops[t].pop_back(); } cl.emplace_back(new Sess(w, "10.0.1." + std::to_string(t + 1))); }
    x.nontrivial = true; std::vector<std::thread> th; std::atomic<int> go(0);
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
        try {
            std::vector<uint32_t> none; Src src(none); Ctx y(src); go++; while (go < T) {}
            cl[t]->init(y, v[t], {}, "u" + std::to_string(t)); for (auto &o : ops[t]) if (!cl[t]->over) cl[t]->step(y, o); cl[t]->finish(y);
        } catch (Fail &f) { bad[t] = f.what(); cl[t]->c.gone = true; }
    });
    for (auto &t : th) t.join();
    for (int t = 0; t < T; t++) if (!bad[t].empty()) { for (auto &o : ops[t]) x.desc << show(o) << " "; x.fail("client " + std::to_string(t) + ": " + bad[t]); }
    x.check(w.srv.errors.empty(), w.srv.errors.empty() ? "" : "server: " + w.srv.errors[0]); x.eq(w.srv.open_sessions(), 0, "target sessions left open");
    zk::hooks().fn = nullptr;
}
// sessions without target hosts are not touched
static void passing(Ctx &x)
{
    World w; w.net.reset(new zk::Net({&metaproxy_1_filter_multi}, w.xml(false)));
    std::vector<std::pair<std::string, std::string> > got;
    zk::hooks().fn = [&](const zk::Hook *h, zk::mp::Package &p) {
        Z_GDU *g = p.request().get(); got.push_back({h->label, zk::encode(g)}); zk::Mem o;
        if (g && g->which == Z_GDU_Z3950) { Z_APDU *a = g->u.z3950; p.response() = a->which == Z_APDU_initRequest ? zk::init_reply(o, a, 0, 0) : zk::reply(o, zk::response_type(a->which), a); }
    };
    zk::Client c(*w.net); zk::Mem o; int n = x.range(1, 6); x.nontrivial = n > 1;
    for (int i = 0; i < n; i++) {
        Z_APDU *a; switch (x.range(0, 4)) { case 0: a = zk::search(o, zk::Search()); break; case 1: a = zk::present(o, zk::Present()); break; case 2: a = zk::scan(o, zk::Scan()); break; case 3: a = zk::init(o); break; default: a = zk::reply(o, Z_APDU_deleteResultSetRequest, zk::close(o)); }
        size_t k = got.size(); yazpp_1::GDU g(a); c.send(a); x.desc << zk::name(a->which) << " "; x.check(got.size() == k + 1 && got[k].first == "next", "request was not passed on once to the next filter"); x.eq(hex(got[k].second), hex(zk::encode(g.get())), "request as passed on");
    }
    c.hangup(); zk::hooks().fn = nullptr;
}
int main(int argc, char **argv)
{
    zk::quiet();
    Check c; c.id = "C12";
    c.add("histories", 6000, 200000, "a present over at least two targets of a set that a search created", histories)
     .add("windows", 5000, 150000, "a window beginning after record 1 of at least two merged targets", windows)
     .add("unusual", 1500, 40000, "all (boundary numbers, unusual diagnostics)", unusual)
     .add("threads", 200, 4000, "all (concurrent clients)", threads, false)
     .add("passing", 400, 8000, "more than one request", passing);
    return run(c, argc, argv);
}
