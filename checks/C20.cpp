// SOURCES: kit filter_sort
// VARIANTS: asan
// Sorting of result sets: order, windows, caching and faults, against the records the server has.
#include "../models/zkit.hpp"
#include <algorithm>
ZK_FILTER(sort)
using namespace pbt; using namespace zk;
static const std::vector<std::string> KEYS{"a", "b", "aa", "B", "a b", "\xc3\xa6", "10", "9", "b&<c", "z"};
struct Row { int kind = 0; std::string key; };       // 0 record, 1 no key, 2 surrogate, 3 other syntax, 4 malformed, 5 attribute key only, 6 two keys, 7 no syntax, 8 key in another name space
struct Set { std::vector<Row> rows; std::string query; };
struct Back {
    std::map<std::string, Set> sets; std::vector<std::string> errors; std::vector<std::string> faults;   // per request after init
    int cap = 0, over = 0; bool piggy = true, dropped = false; std::vector<std::vector<Row> > next; size_t nsearch = 0;
    struct Log { int which; std::string set; long start, num; std::string syn, esn; int n; bool ok; }; std::vector<Log> log;
    std::vector<std::pair<std::string, std::string> > given;     // body and score of records given out for this client request
};
static Back B;
static std::string body_of(const Row &r, long pos, const std::string &esn)
{
    std::string i = " n=\"" + std::to_string(pos) + "\" e=\"" + esn + "\"";
    switch (r.kind) {
    case 1: return "<r" + i + "><x>q</x></r>";
    case 4: return "<r" + i + "><k>" + r.key;
    case 5: return "<r" + i + " k=\"" + esc(r.key) + "\"><k/></r>";
    case 6: return "<r" + i + "><k></k><k>" + esc(r.key) + "</k><k>0</k></r>";
    case 8: return "<r xmlns:y=\"u:y\"" + i + "><y:k>" + esc(r.key) + "</y:k></r>";
    default: return "<r" + i + "><k>" + esc(r.key) + "</k></r>"; }
}
static int g_mode;          // which xpath: 0 k, 1 @k, 2 p:k
static std::string score_of(const Row &r, bool xml)
{
    if (!xml || r.kind == 2 || r.kind == 3 || r.kind == 4 || r.kind == 7 || r.kind == 1) return "";
    switch (g_mode) { case 0: return r.kind == 0 || r.kind == 6 ? r.key : ""; case 1: return r.kind == 5 ? r.key : ""; default: return r.kind == 8 ? r.key : ""; }
}
static void give(ODR o, const Set &s, long start, long num, const Odr_oid *syn, const std::string &esn, Z_Records **out, Odr_int *ret)
{
    const Odr_oid *sx = syn ? syn : yaz_oid_recsyn_xml; bool xml = oid_text(sx) == oid_text(yaz_oid_recsyn_xml); Z_NamePlusRecordList *l = record_list(o, (int) num);
    for (long i = 0; i < num; i++) {
        long p = start + i; Row r = p <= (long) s.rows.size() ? s.rows[p - 1] : Row{0, "over"}; std::string b = body_of(r, p, esn); Z_NamePlusRecord *n;
        if (r.kind == 2) { n = (Z_NamePlusRecord *) odr_malloc(o, sizeof *n); n->databaseName = 0; n->which = Z_NamePlusRecord_surrogateDiagnostic; b = std::to_string(14); n->u.surrogateDiagnostic = zget_DiagRec(o, 14, ("p" + std::to_string(p) + esn).c_str()); b = "!14:p" + std::to_string(p) + esn; }
        else if (r.kind == 3) n = record(o, "d", yaz_oid_recsyn_usmarc, b);
        else { n = record(o, "d", sx, b); if (r.kind == 7) n->u.databaseRecord->direct_reference = 0; }
        B.given.push_back({b, score_of(r, xml)}); l->records[i] = n;
    }
    *out = records(o, l); *ret = num;
}
static void serve(const Hook *, mp::Package &p)
{
    if (p.session().is_closed()) { B.dropped = true; return; }
    Z_GDU *g = p.request().get(); if (!g || g->which != Z_GDU_Z3950) { B.errors.push_back("no request"); return; }
    Z_APDU *a = g->u.z3950; Mem o; if (B.dropped) { B.errors.push_back("request on a lost session"); return; }
    if (a->which == Z_APDU_initRequest) { p.response() = init_reply(o, a, 0, 0); return; }
    std::string f; if (!B.faults.empty()) { f = B.faults[0]; B.faults.erase(B.faults.begin()); }
    Back::Log l{a->which, "", 0, 0, "", "", -1, false};
    if (f == "none") { B.log.push_back(l); return; }
    if (f == "drop") { B.log.push_back(l); B.dropped = true; p.session().close(); p.response() = close_reply(o, a, Z_Close_systemProblem, "dropped"); return; }
    switch (a->which) {
    case Z_APDU_searchRequest: {
        Z_SearchRequest *r = a->u.searchRequest; l.set = r->resultSetName; l.syn = oid_text(r->preferredRecordSyntax);
        B.sets.erase(l.set); if (f == "diag") { p.response() = search_reply(o, a, 114, "s"); B.log.push_back(l); return; }
        Set s; s.rows = B.nsearch < B.next.size() ? B.next[B.nsearch] : std::vector<Row>(); B.nsearch++; s.query = query_text(r->query); B.sets[l.set] = s; long hits = (long) s.rows.size();
        Z_APDU *ra = search_reply(o, a, 0, 0); *ra->u.searchResponse->resultCount = hits; *ra->u.searchResponse->searchStatus = 1; std::string esn = "-"; long n = std::min(piggyback_count(r, hits, esn), hits); l.esn = esn;
        if (B.piggy && n > 0) { if (B.cap) n = std::min(n, (long) B.cap); give(o, s, 1, n, r->preferredRecordSyntax, esn, &ra->u.searchResponse->records, ra->u.searchResponse->numberOfRecordsReturned); l.n = (int) n; }
        l.ok = true; *ra->u.searchResponse->nextResultSetPosition = 1 + std::max(0, l.n); p.response() = ra; break; }
    case Z_APDU_presentRequest: {
        Z_PresentRequest *r = a->u.presentRequest; l.set = r->resultSetId; l.start = (long) *r->resultSetStartPoint; l.num = (long) *r->numberOfRecordsRequested; l.syn = oid_text(r->preferredRecordSyntax); l.esn = esn_text(r->recordComposition);
        if (f == "diag") { p.response() = present_reply(o, a, 238, "p"); break; }
        if (!B.sets.count(l.set)) { p.response() = present_reply(o, a, YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST, l.set.c_str()); break; }
        Set &s = B.sets[l.set]; if (l.start < 1 || l.num < 0 || l.start + l.num - 1 > (long) s.rows.size()) { p.response() = present_reply(o, a, YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE, 0); break; }
        long n = l.num; if (B.cap) n = std::min(n, (long) B.cap); if (f == "zero") n = 0; if (f == "over") n += 2;
        Z_APDU *ra = present_reply(o, a, 0, 0); give(o, s, l.start, n, r->preferredRecordSyntax, l.esn, &ra->u.presentResponse->records, ra->u.presentResponse->numberOfRecordsReturned); *ra->u.presentResponse->nextResultSetPosition = l.start + n > (long) s.rows.size() ? 0 : l.start + n; l.n = (int) n; l.ok = true;
        p.response() = ra; break; }
    case Z_APDU_deleteResultSetRequest: {
        Z_DeleteResultSetRequest *r = a->u.deleteResultSetRequest; if (*r->deleteFunction == Z_DeleteResultSetRequest_all) B.sets.clear(); else for (int i = 0; i < r->num_resultSetList; i++) B.sets.erase(r->resultSetList[i]);
        p.response() = reply(o, Z_APDU_deleteResultSetResponse, a); break; }
    default: p.response() = reply(o, response_type(a->which), a);
    }
    B.log.push_back(l);
}
struct Rel { Rel() { hooks().fn = serve; } ~Rel() { hooks().fn = nullptr; } };
// what the client knows of a cached list
struct Slots { std::vector<std::string> scores; std::multiset<std::string> all; std::vector<std::string> got; std::map<std::string, std::string> score; };
struct Cli { long hits = 0; bool exists = false; std::map<std::string, Slots> lists; };
static std::string key_of(const std::string &syn, const std::string &esn) { return syn + "|" + esn; }
static void slice(Ctx &x, Slots &s, long start, const std::vector<std::string> &bodies)
{
    for (size_t i = 0; i < bodies.size(); i++) {
        size_t at = start - 1 + i; x.check(at < s.scores.size(), "more records than known"); x.check(s.score.count(bodies[i]) > 0, "record " + bodies[i] + " is not one of the set");
        x.eq(s.score[bodies[i]], s.scores[at], "key of record " + std::to_string(at + 1) + " " + bodies[i]);
        if (s.got[at].empty()) { s.got[at] = bodies[i]; x.check(std::count(s.got.begin(), s.got.end(), bodies[i]) <= (long) s.all.count(bodies[i]), "record given twice: " + bodies[i]); } else x.eq(bodies[i], s.got[at], "same position, other record");
    }
}
static void one(Ctx &x, bool faults)
{
    Rel h; B = Back(); g_mode = x.weighted({4, 1, 1}); bool asc = x.chance(2, 3); int prefetch = x.chance(1, 3) ? -1 : x.range(0, 12);
    const char *xp[] = {"/r/k", "/r/@k", "/r/p:k"}; std::string conf = std::string("<filter type=\"sort\"><sort xpath=\"") + (x.coin() && g_mode == 0 ? "//k" : g_mode == 0 && x.coin() ? "/r/k/text()" : xp[g_mode]) + "\""; if (g_mode == 2) conf += std::string(" namespaces=\"") + x.pick({"p=u:y", "q=u:q p=u:y", "p=u:y q=u:z"}) + "\"";
    if (prefetch >= 0) conf += " prefetch=\"" + std::to_string(prefetch) + "\""; if (!asc) conf += std::string(" ascending=\"") + x.pick({"false", "0"}) + "\""; else if (x.coin()) conf += " ascending=\"true\""; conf += "/></filter>"; if (prefetch < 0) prefetch = 20;
    B.cap = x.chance(1, 4) ? x.range(1, 5) : 0; B.piggy = x.chance(3, 4);
    for (int i = 0; i < 12; i++) { std::vector<Row> v; int n = x.weighted({1, 8, 1}) == 0 ? 0 : x.range(1, x.chance(1, 8) ? 40 : 12); for (int k = 0; k < n; k++) v.push_back(Row{x.chance(1, 4) ? x.range(1, 8) : g_mode == 0 ? 0 : g_mode == 1 ? 5 : 8, x.pick(KEYS)}); B.next.push_back(v); }
    Net net({&metaproxy_1_filter_sort}, route("start", conf + hook("z"))); Client c(net); x.desc << conf << " cap=" << B.cap << "\n";
    { Mem o; c.send(init(o)); x.check(init_of(c.last.get()), "init"); }
    std::map<std::string, Cli> sets; int n = x.range(2, 9);
    for (int i = 0; i < n && !c.closed; i++) {
        Mem o; B.log.clear(); B.given.clear(); std::string f; if (faults && x.chance(1, 3)) { int at = x.range(0, 2); for (int k = 0; k < at; k++) B.faults.push_back(""); f = x.pick({"none", "drop", "diag", "zero", "over"}); B.faults.push_back(f); }
        std::string ref = x.coin() ? "r" + std::to_string(i) : ""; int op = i == 0 ? 0 : x.weighted({2, 8, 1}); std::string syn = x.pick({"xml", "xml", "", "usmarc"}), esn = x.pick({"", "", "F", "B"}), nm = x.pick({"default", "default", "s"});
        auto ref_ok = [&] { Z_GDU *g = c.last.get(); if (g && g->which == Z_GDU_Z3950 && g->u.z3950->which != Z_APDU_close) x.eq(get_ref(g->u.z3950), ref, "reference id"); };
        // sort what was fetched for this request, if it starts a list
        auto absorb = [&](const std::string &key, Cli &cs, long hits, const std::string &set) {
            if (B.log[0].n == 0) { x.eq(B.log.size(), (size_t) 1, "requests"); return; }
            long pos = 1 + B.log[0].n, end = std::min((long) prefetch, hits); bool stop = B.log[0].n == 0; size_t j = 1;
            for (; !stop && pos <= end; j++) {
                x.check(j < B.log.size(), "nothing more fetched at " + std::to_string(pos)); auto &l = B.log[j]; x.eq(l.which, (int) Z_APDU_presentRequest, "fetch"); if (l.n < 0 && l.set.empty()) { stop = true; continue; }   // none or drop
                x.eq(l.set, set, "set fetched"); x.eq(l.start, pos, "fetch start"); x.eq(l.num, end - pos + 1, "fetch number"); x.eq(key_of(l.syn, l.esn), key, "fetch form"); if (l.n <= 0) stop = true; else pos += l.n;
            }
            x.eq(B.log.size(), j, "requests"); Slots s; for (auto &g : B.given) { s.all.insert(g.first); s.score[g.first] = g.second; s.scores.push_back(g.second); } std::sort(s.scores.begin(), s.scores.end(), [](const std::string &a, const std::string &b) { return strcmp(a.c_str(), b.c_str()) < 0; }); if (!asc) std::reverse(s.scores.begin(), s.scores.end());
            s.got.resize(s.scores.size()); cs.lists[key] = s; std::set<std::string> d(s.scores.begin(), s.scores.end()); if (d.size() > 1) { x.nontrivial = true; x.label("sorted"); }
        };
        if (op == 0) {
            Search s; s.set = nm; s.syn = syn; s.ref = ref; s.replace = !x.chance(1, 6); int p = x.range(0, 2); if (p == 1) { s.ssub = x.range(0, 8); s.esn_s = esn; s.lslb = s.ssub + 1; } if (p == 2) { s.ssub = 0; s.lslb = 1000; s.mspn = x.range(0, 8); s.esn_m = esn; }
            x.desc << "search " << nm << " rows=" << (B.nsearch < B.next.size() ? B.next[B.nsearch].size() : 0) << " pb=" << s.ssub << "/" << s.lslb << "/" << s.mspn << " " << syn << "/" << esn << " replace=" << s.replace << " fault=" << f << "\n"; if (B.nsearch < B.next.size()) { for (auto &r : B.next[B.nsearch]) x.desc << r.kind << q(r.key) << " "; x.desc << "\n"; }
            bool had = sets[nm].exists; c.send(search(o, s)); auto *r = search_of(c.last.get());
            if (had && !s.replace) { x.check(r, "search response"); x.eq(recs(r->records).diag, std::string("21"), "set exists"); x.eq(B.log.size(), (size_t) 0, "requests"); ref_ok(); B.faults.clear(); continue; }
            sets[nm] = Cli(); sets[nm].exists = true; x.check(B.log.size() >= 1, "search not sent"); if (!B.log[0].ok && B.log[0].set.empty()) { if (f == "none") x.check(!c.last.get(), "an answer from nowhere"); } else { x.check(r, "search response"); ref_ok();
                if (!B.log[0].ok) x.eq(recs(r->records).diag, std::string("114:s"), "diagnostic");
                else { Cli &cs = sets[nm]; cs.hits = (long) B.sets[nm].rows.size(); if (B.dropped) cs.hits = (long) *r->resultCount; x.eq((long) *r->resultCount, cs.hits, "hits"); Recs rr = recs(r->records); x.eq((long) rr.body.size(), (long) std::max(0, B.log[0].n), "records"); x.eq((long) *r->numberOfRecordsReturned, (long) rr.body.size(), "returned");
                    if (B.log[0].n >= 0) { std::string k = key_of(B.log[0].syn, B.log[0].esn); absorb(k, cs, cs.hits, nm); if (B.log[0].n) slice(x, cs.lists[k], 1, rr.body); } else x.eq(B.log.size(), (size_t) 1, "requests"); } }
        } else if (op == 1) {
            Present p; p.set = x.chance(1, 12) ? "unknown" : nm; p.syn = syn; p.esn = esn; p.ref = ref; Cli &cs = sets[p.set]; p.start = x.coin() ? 1 : x.chance(1, 10) ? x.range(-2, 0) : x.range(1, 14); p.num = x.chance(1, 15) ? x.range(-3, 0) : x.range(1, 12); if (x.coin() && cs.hits && p.start >= 1 && p.start + p.num - 1 > cs.hits) { p.start = (int) std::min((long) p.start, cs.hits); p.num = (int) (cs.hits - p.start + 1); }
            x.desc << "present " << p.set << " " << p.start << "+" << p.num << " " << syn << "/" << esn << " fault=" << f << "\n"; c.send(present(o, p)); auto *r = present_of(c.last.get());
            if (!cs.exists) { x.check(r, "present response"); x.eq(recs(r->records).diag, "30:" + p.set, "no such set"); ref_ok(); B.faults.clear(); continue; }
            std::string k = key_of(oid_text(syntax(o, syn)), esn.empty() ? "-" : esn); bool cached = cs.lists.count(k) > 0 && p.start >= 1 && p.num >= 1 && p.start - 1 + p.num <= (long) cs.lists[k].scores.size();
            if (cached) {
                x.check(B.log.empty(), "a present for records at hand"); x.check(r, "present response"); ref_ok(); Recs rr = recs(r->records); x.eq((int) rr.body.size(), p.num, "records"); x.eq((int) *r->numberOfRecordsReturned, p.num, "returned"); x.eq((int) *r->presentStatus, (int) Z_PresentStatus_success, "status");
                long nx = p.start + p.num; x.eq((long) *r->nextResultSetPosition, nx > cs.hits ? 0 : nx, "next position"); slice(x, cs.lists[k], p.start, rr.body); x.label("cached");
            } else if (p.num == 0) { x.label("none asked"); }
            else {
                x.check(B.log.size() >= 1, "present not sent"); auto &l = B.log[0]; if (l.set.empty()) { if (f == "none") x.check(!c.last.get(), "an answer from nowhere"); }
                else { x.eq(l.set, p.set, "set"); x.eq(l.start, (long) p.start, "start"); x.eq(l.num, (long) p.num, "number"); x.eq(key_of(l.syn, l.esn), k, "form"); x.check(r, "present response"); ref_ok(); Recs rr = recs(r->records);
                    if (!l.ok) { x.check(!rr.diag.empty(), "diagnostic lost"); x.eq(B.log.size(), (size_t) 1, "requests"); }
                    else if (p.start == 1 && !cs.lists.count(k)) { x.eq((int) rr.body.size(), l.n, "records"); absorb(k, cs, cs.hits, p.set); if (l.n) slice(x, cs.lists[k], 1, rr.body); }
                    else { x.eq(B.log.size(), (size_t) 1, "requests"); x.eq(rr.body.size(), B.given.size(), "records"); for (size_t j = 0; j < rr.body.size(); j++) x.eq(rr.body[j], B.given[j].first, "record"); }
                }
            }
        } else {
            bool all = x.coin(); Z_APDU *a = zget_APDU(o, Z_APDU_deleteResultSetRequest); *a->u.deleteResultSetRequest->deleteFunction = all ? Z_DeleteResultSetRequest_all : Z_DeleteResultSetRequest_list; if (!all) { a->u.deleteResultSetRequest->num_resultSetList = 1; a->u.deleteResultSetRequest->resultSetList = (char **) odr_malloc(o, sizeof(char *)); a->u.deleteResultSetRequest->resultSetList[0] = odr_strdup(o, nm.c_str()); } set_ref(o, a, ref);
            x.desc << "delete " << (all ? "all" : nm) << " fault=" << f << "\n"; c.send(a); x.eq(B.log.size(), (size_t) 1, "requests"); if (B.log[0].which == Z_APDU_deleteResultSetRequest && f.empty()) { for (auto &s : sets) if (all || s.first == nm) { s.second.lists.clear(); s.second.hits = 0; } x.label("delete"); ref_ok(); } else break;
        }
        if (B.dropped) x.check(c.closed, "the session is lost, the client not told");
        for (auto &e : B.errors) x.fail("server: " + e);
        B.faults.clear();
    }
    c.hangup();
}
static void xml_quiet(void *, const char *, ...) {}
int main(int argc, char **argv)
{
    quiet(); xmlSetGenericErrorFunc(0, xml_quiet); Check c; c.id = "C20";
    c.add("sorting", 8000, 120000, "a list with different keys was sorted", [](Ctx &x) { one(x, false); });
    c.add("faults", 6000, 80000, "a list with different keys was sorted", [](Ctx &x) { one(x, true); });
    return run(c, argc, argv);
}
